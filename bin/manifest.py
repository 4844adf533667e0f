"""Writes MANIFEST.json."""
import json, os
T = {
 "C01": ("TLA+ Store specification; TLC validates recorded full scans of files written under the configuration product; TLC checks the Block design model",
   "Every recorded open and scan is a behaviour of the Store specification. Assumes the codec crates; contents and configurations are seeded samples plus the products listed in DESIGN.md."),
 "C02": ("TLA+ Store/Cursor/Block specifications; TLC model checks the descent and the binary searches; TLC validates recorded seeks",
   "Design: all small trees and all probes. Code: recorded seeks of every probe class on many layouts are behaviours of Store."),
 "C03": ("TLA+ Cursor refinement model-checked by TLC; every transition of the model replayed on the code; recorded histories validated by TLC",
   "Design: every history over all small trees (fixpoint). Code: every transition of that graph, exhaustive short histories and random long ones, validated. One known finding (C03-CURRENT)."),
 "C04": ("TLA+ Store/Iter specification; TLC model checks the iterator machine; TLC validates recorded range iterations over all bound pairs",
   "All pairs of bounds over the stored keys, their neighbours and the unbounded ends on every file of the run."),
 "C05": ("TLA+ Store/Iter specification; TLC model checks the iterator machine; TLC validates recorded prefix iterations",
   "All prefixes over the file's alphabet, including 0xFF runs, the empty prefix and absent ones."),
 "C06": ("TLA+ Merger model checked by TLC; every overlap pattern of it replayed; recorded merges validated by TLC",
   "Design: all contents of up to 3-4 sources. Code: all of these plus larger random ones; the merge calls and outputs are validated."),
 "C07": ("TLA+ Sorter model checked by TLC; its behaviours replayed on the code at scaled budgets; recorded outputs validated by TLC",
   "Design: all insert sequences up to a bound. Code: behaviours of the model, plus configuration products, parallel sorting included."),
 "C08": ("TLA+ Sorter resource invariants model checked by TLC; recorded chunk creations, drops and inserts validated by TLC",
   "Volume and live chunks after every insert of recorded runs, with the hook build at small budgets and the unmodified build at 10 MiB and above."),
 "C09": ("TLA+ Format specification (a byte-level decoder) evaluated by TLC on emitted files; interoperation with grenad 0.4.7 both ways",
   "Every block of every emitted file is decoded by the specification (small files) or checked as structure recovered by an independent decoder (large ones)."),
 "C10": ("TLA+ Store specification; recorded operations on version-1 files validated by TLC; Format specification of the V1 trailer",
   "Version-1 files are synthesized from the format's specification (cross-checked with grenad 0.4.7); all operations of C01-C05 on them."),
 "C11": ("TLA+ IO model checked by TLC; its schedules replayed on instrumented sinks, sources and chunks; emitted streams validated by TLC",
   "All short schedules of the model, plus random ones, for writers, readers, mergers and sorters."),
 "C12": ("TLA+ Fault specification (which call reports which failure, and as what) model checked by TLC; recorded failing runs validated by TLC",
   "Every (small scenarios) or a sample (large ones) of the component calls made to fail once or from then on, with every error kind."),
 "C13": ("TLA+ Format specification of the trailers decides, in TLC, the outcome of every recorded opening",
   "All truncations, all single-byte corruptions of trailers and families of short byte strings; no panic, no other read than the tail."),
 "C14": ("TLA+ Varint specification model checked by TLC; the code's function over all 2^32 lengths compared with it by digit tables in TLC",
   "All 2^32 lengths through the code's own encoder and decoder (hook); entries at the boundaries through writer and reader."),
 "C15": ("TLA+ Writer model (cut rule) checked by TLC; the layout of emitted files validated by TLC",
   "Every block of every file of the run, sizes recomputed by the specification from the entries."),
 "C16": ("TLA+ Cursor model with a load bound checked by TLC; block loads of recorded operations validated by TLC",
   "Loads are read off an instrumented source; bound 2 x (index levels + 2) per operation, files up to hundreds of blocks and 6 levels."),
 "C17": ("TLA+ Buffer model checked by TLC; its behaviours replayed on a checking allocator and under AddressSanitizer; heap traces validated by TLC",
   "Sequences of entry sizes of the model around every boundary; allocator with guard bands and layouts; ASan and leak detection."),
 "C18": ("TLA+ Writer model (order guard) checked by TLC; exhaustively enumerated and random insert sequences recorded and validated by TLC",
   "All sequences of the model's alphabet up to a length, at 0-3 index levels, plus disturbed random ones."),
}
checks = [dict(property=p, quick_cmd=f"python3 bin/check.py {p}", thorough_cmd=f"python3 bin/check.py {p} --thorough",
               evidence_file=f"evidence/{p}.json", technique=t, level="model_checking", level_note=n) for p, (t, n) in T.items()]
m = dict(version=1, setup_cmd="python3 bin/check.py setup",
         hooks=dict(guard="--cfg grenad_verif",
                    enable="RUSTFLAGS='--cfg grenad_verif' cargo build --offline --release of /verif/harness (bin/check.py does it)",
                    source_commits=["a8b3b90", "f81a490"]),
         checks=checks, not_applicable=[],
         notes="The specification is /verif/spec (TLA+, TLC). Known findings and fixes: known/findings.jsonl.")
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
