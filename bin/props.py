"""What each check runs: design models, harness steps, trace specifications."""


def cfg(spec="Spec", consts=None, inv=(), view=None, post=None, props=(), constraint=None, action=None, init=None):
    s = f"SPECIFICATION {spec}\n" if init is None else f"INIT {init[0]}\nNEXT {init[1]}\n"
    if consts:
        s += "CONSTANTS\n" + "".join(f"  {k} {v}\n" if str(v).startswith("<-") else f"  {k} = {v}\n" for k, v in consts.items())
    if view:
        s += f"VIEW {view}\n"
    if constraint:
        s += f"CONSTRAINT {constraint}\n"
    if action:
        s += f"ACTION_CONSTRAINT {action}\n"
    if inv:
        s += "INVARIANTS " + " ".join(inv) + "\n"
    if props:
        s += "PROPERTIES " + " ".join(props) + "\n"
    if post:
        s += f"POSTCONDITION {post}\n"
    return s + "CHECK_DEADLOCK FALSE\n"


def store_trace(cost="FALSE", known='{"C03-CURRENT"}'):
    return dict(module="Trace_Store", cfg=cfg(consts={"KNOWN": known, "COST": cost}, post="Accepted"))


# ---- the cursor design model

CUR_INV = ["Refines", "CurrentOk", "CurrentKnown", "Bounded", "Believed", "Emit"]


def cur_consts(sizes, width, levels, fans, emit="FALSE", record="TRUE", faults="FALSE", early="FALSE"):
    return {"RECORD": record, "FAULTS": faults, "EARLY": early, "SIZES": sizes, "WIDTH": width, "LEVELS": levels, "FANS": fans, "EMIT": emit}


def mc_cursor(tier):
    if tier == "quick":
        return [
            dict(name="Cursor", module="MC_Cursor", workers=4,
                 cfg=cfg(consts=cur_consts(3, 1, "{0, 2, 3}", "{1, 2}"), view="View", inv=CUR_INV)),
            dict(name="Cursor-faults", module="MC_Cursor", workers=4,
                 cfg=cfg(consts=cur_consts(3, 1, "{2}", "{1, 2}", faults="TRUE"), view="View", inv=CUR_INV)),
            dict(name="Cursor-stale-offset", module="MC_Cursor", expect="violation", workers=2,
                 cfg=cfg(consts=cur_consts(2, 1, "{2}", "{1}", record="FALSE"), view="View", inv=["Refines"])),
            dict(name="Cursor-early-offset", module="MC_Cursor", expect="violation", workers=2,
                 cfg=cfg(consts=cur_consts(2, 1, "{2}", "{1}", faults="TRUE", early="TRUE"), view="View", inv=["Refines"])),
        ]
    return [
        dict(name="Cursor", module="MC_Cursor", workers=6, heap="10g",
             cfg=cfg(consts=cur_consts(4, 2, "{0, 1, 2, 3}", "{1, 2}"), view="View", inv=CUR_INV)),
        dict(name="Cursor-5-blocks", module="MC_Cursor", workers=6, heap="10g",
             cfg=cfg(consts=cur_consts(6, 1, "{2, 3, 4}", "{1, 2, 3}"), view="View", inv=CUR_INV)),
        dict(name="Cursor-faults", module="MC_Cursor", workers=6, heap="10g",
             cfg=cfg(consts=cur_consts(3, 1, "{0, 1, 2, 3}", "{1, 2}", faults="TRUE"), view="View", inv=CUR_INV)),
        dict(name="Cursor-faults-4", module="MC_Cursor", workers=6, heap="10g",
             cfg=cfg(consts=cur_consts(4, 1, "{2}", "{1}", faults="TRUE"), view="View", inv=CUR_INV)),
        dict(name="Cursor-stale-offset", module="MC_Cursor", expect="violation", workers=2,
             cfg=cfg(consts=cur_consts(2, 1, "{2}", "{1}", record="FALSE"), view="View", inv=["Refines"])),
        dict(name="Cursor-early-offset", module="MC_Cursor", expect="violation", workers=2,
             cfg=cfg(consts=cur_consts(2, 1, "{2}", "{1}", faults="TRUE", early="TRUE"), view="View", inv=["Refines"])),
    ]


def mc_block(tier):
    n = 6 if tier == "quick" else 10
    inv = ["LeOk", "GeOk", "PrevOk", "LastOk"]
    return [
        dict(name="Block", module="MC_Block", cfg=cfg(consts={"N": n, "BUG": "FALSE"}, inv=inv)),
        dict(name="Block-mutant", module="MC_Block", expect="violation", cfg=cfg(consts={"N": n, "BUG": "TRUE"}, inv=inv)),
    ]


def beh_cursor(tier):
    if tier == "quick":
        c = cur_consts(3, 2, "{0, 2}", "{1, 2}", emit="TRUE")
    else:
        c = cur_consts(4, 2, "{0, 1, 2, 3}", "{1, 2}", emit="TRUE")
    return dict(module="MC_Cursor", cfg=cfg(consts=c, view="View", inv=["Refines", "Emit"]),
                group=["sizes", "fan", "levels"])


def mc_iter(kinds, muts, tree, maxn):
    """The iterators over the abstract cursor (and over the cursor as built), every small content and every pair of bounds."""
    def f(tier):
        deep = tier != "quick"
        rng = "range" in kinds
        ks = "{%s}" % ", ".join('"%s"' % k for k in kinds)

        def c(n, mut, plen):
            return {"TOP": 2, "LEN": 2, "PLEN": plen, "MAXN": n, "KINDS": ks, "MUT": '"%s"' % mut}
        r = [dict(name="Iter", module="MC_Iter", workers=4, heap="8g" if deep else "3g",
                  cfg=cfg(consts=c(maxn[1 if deep else 0], "none", 3), inv=["Lists", "Within", "Defs"]))]
        if tree:
            r.append(dict(name="IterTree", module="MC_IterTree", workers=4, heap="8g" if deep else "3g",
                          cfg=cfg(consts={"RECORD": "TRUE", "EARLY": "FALSE", "SIZES": 4 if deep else 3, "WIDTH": 2, "LEVELS": "{0, 1, 2, 3}" if deep else "{0, 2}",
                                          "FANS": "{1, 2}", "KINDS": ks, "MUT": '"none"'}, inv=["Lists", "Within"])))
        for m in muts:
            r.append(dict(name=f"Iter-{m}", module="MC_Iter", expect="violation", workers=2,
                          cfg=cfg(consts=c(2, m, 2 if not rng else 3), inv=["Lists"])))
        return r
    return f


def step(flavour="hook", **k):
    return dict(flavour=flavour, **k)


def rel(scale=0.25, **k):
    """A part of the scenarios (other seeds) with the code built as a release build is."""
    return step(flavour="rel", scale=scale, seed=1000, shards=4, aside=True, **k)


def fam(prop, cost="FALSE"):
    """Files of millions of entries, asked about by number."""
    return step(run="fam" + prop, aside=True, shards=4,
                trace=dict(module="Trace_Family", cfg=cfg(consts={"COST": cost, "KNOWN": '{"C01-RAW-SNAPPY"}'}, post="Accepted")))


def mc_family(tier):
    def c(mut):
        return cfg(consts={"MAXN": 5 if tier == "quick" else 9, "MUT": mut}, inv=["Seeks", "Ranges"])
    return [dict(name="Family", module="MC_Family", workers=2, cfg=c("FALSE")),
            dict(name="Family-mutant", module="MC_Family", expect="violation", cfg=c("TRUE"))]


PROPS = {}
RULE_STORE = ("one scenario = one file (seeded content, writer configuration and block layout) with the operations recorded on it; "
              "distinct = distinct (content, configuration) digests; non-trivial: contents are prefix-rich key sets, sizes straddle block cuts, "
              "probes are the stored keys, their extensions, truncations and neighbours")

PROPS["C01"] = dict(level="model_checking", rule=RULE_STORE,
    mc=lambda t: mc_block(t)[:1],
    steps=lambda t: [step(trace=store_trace()), rel(trace=store_trace()), fam("C01")])
PROPS["C02"] = dict(level="model_checking", rule=RULE_STORE,
    mc=lambda t: mc_block(t) + mc_cursor(t)[:1] + mc_family(t),
    steps=lambda t: [step(trace=store_trace()), rel(trace=store_trace()), fam("C02")])
PROPS["C03"] = dict(level="model_checking", rule=RULE_STORE,
    mc=mc_cursor,
    steps=lambda t: [step(trace=store_trace(), behaviours=beh_cursor(t)), rel(trace=store_trace()), fam("C03")])
def ap(name, module, expect="ok", **k):
    return dict(tool="apalache", name=name, module=module, expect=expect, args=[f"--{x}={v}" for x, v in k.items()])


def ap_prefix(tier):
    """A prefix is the interval up to its successor, for all byte strings of a length over all 256 bytes."""
    m = "PrefixInt"
    r = [ap("PrefixInt-interval", m, cinit="CInit", init="Init", inv="Inv", length=0),
         ap("PrefixInt-carry", m, "violation", cinit="CInitCarry", init="Init", inv="Inv", length=0)]
    if tier != "quick":
        r += [ap("PrefixInt-long", m, cinit="CInitLong", init="Init", inv="Inv", length=0),
              ap("PrefixInt-wrap", m, "violation", cinit="CInitWrap", init="Init", inv="Inv", length=0),
              ap("PrefixInt-last", m, "violation", cinit="CInitLast", init="Init", inv="Inv", length=0),
              ap("PrefixInt-covered", m, "violation", cinit="CInit", init="Init", inv="Covered", length=0)]
    return r


def ap_loads(tier):
    """The loads of one cursor operation by induction, for every number of index levels."""
    m = "LoadsInd"
    r = [ap("LoadsInd-base", m, cinit="CInit", init="Init", inv="Inv", length=0),
         ap("LoadsInd-step", m, cinit="CInit", init="Inv", inv="Inv", length=1),
         ap("LoadsInd-bounds", m, cinit="CInit", init="Inv", inv="Bounds", length=0),
         ap("LoadsInd-walk", m, "violation", cinit="CInitWalk", init="Inv", inv="Inv", length=1)]
    if tier != "quick":
        r += [ap("LoadsInd-twice", m, "violation", cinit="CInitTwice", init="Inv", inv="Inv", length=1),
              ap("LoadsInd-covered", m, "violation", cinit="CInit", init="Inv", inv="Covered", length=0)]
    return r


def ap_writer(tier, sorted_, muts):
    """The writer's cuts and its order by induction, for every block size, interval and entry size;
    sorted_: sorted inserts only, or any."""
    m, ci, tag = "WriterInd", "CInit" if sorted_ else "CInitAny", "sorted" if sorted_ else "any"
    r = [ap(f"WriterInd-{tag}-base", m, cinit=ci, init="Init", inv="Inv", length=0),
         ap(f"WriterInd-{tag}-step", m, cinit=ci, init="Inv", inv="Inv", length=1),
         ap(f"WriterInd-{tag}-bounds", m, cinit=ci, init="Inv", inv="Bounds", length=0)]
    r += [ap(f"WriterInd-{x.lower()}", m, "violation", cinit=f"CInit{x}", init="Inv", inv="Inv", length=1)
          for x in (muts[:1] if tier == "quick" else muts)]
    if tier != "quick":
        r += [ap(f"WriterInd-{tag}-covered", m, "violation", cinit=ci, init="Inv", inv="Covered", length=0)]
    return r


PROPS["C04"] = dict(level="model_checking", rule=RULE_STORE,
    mc=mc_iter(("range", "revrange"), ("stay", "closed"), True, (2, 3)),
    steps=lambda t: [step(trace=store_trace()), rel(trace=store_trace()), fam("C04")])
PROPS["C05"] = dict(level="model_checking", rule=RULE_STORE,
    mc=lambda t: mc_iter(("prefix", "revprefix"), ("carry", "here"), False, (3, 4))(t) + ap_prefix(t),
    steps=lambda t: [step(trace=store_trace()), rel(trace=store_trace()), fam("C05")])
PROPS["C10"] = dict(level="model_checking", rule=RULE_STORE,
    mc=lambda t: mc_open(t)[:1] + mc_cursor(t)[:1],
    steps=lambda t: [step(trace=store_trace()), rel(trace=store_trace()), fam("C10"),
                     step(run="C10trailer", trace=dict(module="Trace_Format", cfg=cfg(post="Accepted")), aside=True, shards=4)])
PROPS["C16"] = dict(level="model_checking", rule=RULE_STORE,
    mc=lambda t: mc_cursor(t)[:1] + ap_loads(t),
    steps=lambda t: [step(trace=store_trace(cost="TRUE")), rel(trace=store_trace(cost="TRUE")), fam("C16", "TRUE")])


# ---- files as bytes

def trace(module, consts=None):
    return dict(module=module, cfg=cfg(consts=consts, post="Accepted"))


W_INV = ["Sorted", "NoPanicIfSorted", "Cut", "Pending", "Tree"]


def mc_writer(tier, inv=W_INV, muts=(("guard", "Sorted"), ("late", "Cut"))):
    def c(n, mut, ks=4):
        return {"KEYS": "{%s}" % ", ".join(map(str, range(1, ks + 1))), "MAXN": n, "LVS": "{0, 1, 2, 3}", "BS": "{30, 46}", "MUT": '"%s"' % mut}
    r = [dict(name="Writer", module="MC_Writer", workers=4, heap="6g" if tier != "quick" else "3g",
              cfg=cfg(consts=c(5 if tier == "quick" else 7, "none", 4), inv=inv))]
    for m, i in muts:
        r.append(dict(name=f"Writer-{m}", module="MC_Writer", expect="violation", workers=2, cfg=cfg(consts=c(5, m), inv=[i])))
    return r


def mc_varint(tier):
    b = 4 if tier == "quick" else 8
    inv = ["RoundTrip", "Bytes", "Class", "Truncated"]
    return [
        dict(name="Varint", module="MC_Varint", cfg=cfg(consts={"BASE": b, "TOP": 2, "MUT": '"none"'}, inv=inv)),
        dict(name="Varint-mutant", module="MC_Varint", expect="violation", cfg=cfg(consts={"BASE": b, "TOP": 2, "MUT": '"trim"'}, inv=["RoundTrip"])),
    ]


def mc_open(tier):
    def c(w, m, n, mut):
        return {"W": w, "M1": f"<- M1{m}", "M2": f"<- M2{m}", "CODECS": "{0, 1}", "TOP": 3, "MAXLEN": n, "MUT": '"%s"' % mut}
    inv = ["Accepts", "One", "OnlyTrailer"]
    r = [dict(name="Open", module="MC_Open", workers=4, cfg=cfg(consts=c(1, "S", 6 if tier == "quick" else 8, "none"), inv=inv, props=["Ends"], spec="Spec")),
         dict(name="Open-wide", module="MC_Open", workers=4, heap="8g" if tier != "quick" else "3g",
              cfg=cfg(consts=c(2, "L", 8 if tier == "quick" else 10, "none"), inv=inv))]
    for m in ("clamp", "short", "codec", "once"):
        r.append(dict(name=f"Open-{m}", module="MC_Open", expect="violation", workers=1,
                      cfg=cfg(consts=c(*((1, "S", 6) if m != "once" else (2, "L", 8)), m), inv=["Accepts"])))
    return r


def ap_buffer(tier):
    """The sorter's sizes by induction, for every budget, chunk limit and entry size."""
    m = "BufferInd"
    r = [ap("BufferInd-base", m, cinit="CInit", init="Init", inv="Inv", length=0),
         ap("BufferInd-step", m, cinit="CInit", init="Inv", inv="Inv", length=1),
         ap("BufferInd-bounds", m, cinit="CInit", init="Inv", inv="Bounds", length=0),
         ap("BufferInd-late", m, "violation", cinit="CInitLate", init="Inv", inv="Inv", length=1)]
    if tier != "quick":
        r += [ap("BufferInd-covered", m, "violation", cinit="CInit", init="Inv", inv="Covered", length=0),
              ap("BufferInd-hook-base", m, cinit="CInitHook", init="Init", inv="Inv", length=0),
              ap("BufferInd-hook-step", m, cinit="CInitHook", init="Inv", inv="Inv", length=1),
              ap("BufferInd-hook-bounds", m, cinit="CInitHook", init="Inv", inv="Bounds", length=0),
              ap("BufferInd-nobound", m, "violation", cinit="CInitNobound", init="Inv", inv="Inv", length=1),
              ap("BufferInd-nomerge", m, "violation", cinit="CInitNomerge", init="Inv", inv="Inv", length=1)]
    return r


def ap_varint(tier):
    return [ap("VarintInt", "VarintInt", cinit="C", inv="All", length=0),
            ap("VarintInt-mutant", "VarintInt", "violation", cinit="CMut", inv="All", length=0)]


PROPS["C09"] = dict(level="model_checking", rule=RULE_STORE,
    mc=lambda t: mc_writer(t, ["Tree"], ()),
    steps=lambda t: [step(trace=trace("Trace_Format")), rel(trace=trace("Trace_Format"))])
PROPS["C13"] = dict(level="model_checking",
    rule="one scenario = one family of byte strings (all truncations of one finished file, all single-byte corruptions of one trailer, ...), every string of it opened",
    mc=mc_open,
    steps=lambda t: [step(trace=trace("Trace_Format")), rel(trace=trace("Trace_Format"))])
PROPS["C14"] = dict(level="model_checking",
    rule="the exhaustive sweep of the 2^32 lengths is one scenario; each (key length, value length) pair written and read back is another; distinct = distinct pairs",
    mc=lambda t: mc_varint(t) + ap_varint(t),
    steps=lambda t: [step(trace=trace("Trace_Varint", {"BASE": 128, "TOP": 16}), needs_hook=True),
                     step(run="C14api", trace=trace("Trace_Varint", {"BASE": 128, "TOP": 16})),
                     rel(run="C14api", trace=trace("Trace_Varint", {"BASE": 128, "TOP": 16}))])
PROPS["C15"] = dict(level="model_checking", rule=RULE_STORE,
    mc=lambda t: mc_writer(t, W_INV, (("late", "Cut"),)) + ap_writer(t, True, ("Late", "Table")),
    steps=lambda t: [step(trace=trace("Trace_Writer", {"LAYOUT": "TRUE"})), rel(trace=trace("Trace_Writer", {"LAYOUT": "TRUE"}))])
PROPS["C18"] = dict(level="model_checking",
    rule="one scenario = 64 exhaustively enumerated insert sequences (3 keys, 2 sizes, index fan-out 2, 0-3 levels) or one disturbed random sequence",
    mc=lambda t: mc_writer(t, W_INV, (("guard", "Sorted"),)) + ap_writer(t, False, ("Guard", "First"))
                    + ([] if t == "quick" else ap_writer(t, True, ())),
    steps=lambda t: [step(trace=trace("Trace_Writer", {"LAYOUT": "FALSE"})), rel(0.6, trace=trace("Trace_Writer", {"LAYOUT": "FALSE"}))])


# ---- merging and sorting

def mc_merger(tier):
    n, k = (3, 3) if tier == "quick" else (4, 3)
    def c(mut, n=n, k=k, emit="FALSE"):
        return {"N": n, "K": k, "MUT": f'"{mut}"', "EMIT": emit}
    r = [dict(name="Merger", module="MC_Merger", workers=4, heap="6g", cfg=cfg(consts=c("none"), inv=["Prefix", "Complete", "Agree"]))]
    if tier != "quick":
        r.append(dict(name="Merger-3x4", module="MC_Merger", workers=4, heap="6g", cfg=cfg(consts=c("none", 3, 4), inv=["Prefix", "Complete", "Agree"])))
    for m in ("lifo", "one", "keep"):
        r.append(dict(name=f"Merger-{m}", module="MC_Merger", expect="violation", cfg=cfg(consts=c(m, 3, 2), inv=["Prefix", "Complete"])))
    return r


def beh_merger(tier):
    return dict(module="MC_Merger", cfg=cfg(consts={"N": 3, "K": 3 if tier == "quick" else 4, "MUT": '"none"', "EMIT": "TRUE"}, inv=["Prefix"]))


def sorter_consts(n, mut="none", emit="FALSE", T=8, init=2, keys="{1, 2}", units="{2, 3, 5, 9}", maxs="{1, 2, 3}"):
    return {"KEYS": keys, "UNITS": units, "T": T, "INITCAP": init, "MAXS": maxs, "MAXN": n, "MUT": f'"{mut}"', "EMIT": emit}


S_INV = ["Output", "Runs", "Volume", "Live", "Buffer"]


def mc_sorter(tier, inv=S_INV, muts=(("front", "Output"), ("unstable", "Output"))):
    n = 5 if tier == "quick" else 7
    r = [dict(name="Sorter", module="MC_Sorter", workers=4, heap="4g" if tier == "quick" else "8g", cfg=cfg(consts=sorter_consts(n), inv=inv))]
    # small entries only, more of them: the bounds
    r.append(dict(name="Sorter-small", module="MC_Sorter", workers=2, heap="4g",
                  cfg=cfg(consts=sorter_consts(9 if tier == "quick" else 14, keys="{1}", units="{1, 2, 3}", maxs="{1, 2}"), inv=inv)))
    for m, i in muts:
        kw = dict(keys="{1}", units="{1, 3}") if i in ("Volume", "Live") else {}
        r.append(dict(name=f"Sorter-{m}", module="MC_Sorter", expect="violation", workers=2, cfg=cfg(consts=sorter_consts(11 if kw else 4, m, **kw), inv=[i])))
    return r


def beh_sorter(tier):
    n = 4 if tier == "quick" else 6
    return dict(module="MC_Sorter", cfg=cfg(consts=sorter_consts(n, emit="TRUE"), inv=["Output"]))


RULE_SORT = ("one scenario = one sequence of inserts and one sorter configuration; distinct = distinct (configuration, length) digests; "
             "non-trivial: budgets of a few kilobytes (hook build), so that inserts spill, reallocate, exceed the buffer and merge chunks")
PROPS["C06"] = dict(level="model_checking",
    rule="one scenario = one list of sources (overlap pattern, file configurations), streamed and/or written; distinct = distinct contents; every overlap pattern of the model is one scenario",
    mc=mc_merger,
    steps=lambda t: [step(trace=trace("Trace_Merger"), behaviours=beh_merger(t)), rel(trace=trace("Trace_Merger")),
                     step(run="C06wide", aside=True, shards=4, trace=trace("Trace_Wide"))])
PROPS["C07"] = dict(level="model_checking", rule=RULE_SORT,
    mc=lambda t: mc_sorter(t),
    steps=lambda t: [step(trace=trace("Trace_Sorter"), behaviours=beh_sorter(t)), rel(trace=trace("Trace_Sorter"))])
PROPS["C08"] = dict(level="model_checking", rule=RULE_SORT,
    mc=lambda t: mc_sorter(t, ["Volume", "Live", "Buffer"], (("grow", "Volume"), ("nomerge", "Live"))) + ap_buffer(t),
    steps=lambda t: [step(trace=trace("Trace_Sorter")), step(flavour="plain", trace=trace("Trace_Sorter"), aside=True), rel(trace=trace("Trace_Sorter"))])


# ---- components: schedules and failures

def mc_io(tier):
    def c(mut, n=3, l=3, emit="FALSE"):
        return {"LENS": "{0, 1, 2, 5}" if tier == "quick" else "{0, 1, 2, 3, 7}", "MAXT": n, "SCHED": l, "MUT": f'"{mut}"', "EMIT": emit}
    inv = ["Prefix", "Complete", "Offsets"]
    n, l = (3, 3) if tier == "quick" else (4, 4)
    r = [dict(name="IO", module="MC_IO", workers=4, heap="6g", cfg=cfg(consts=c("none", n, l), inv=inv)),
         dict(name="IO-ends", module="MC_IO", workers=2, heap="4g", cfg=cfg(consts=c("none", 2, 3), props=["Ends"]))]
    for m, i in (("offered", "Offsets"), ("single", "Complete"), ("resend", "Prefix"), ("skip", "Complete")):
        r.append(dict(name=f"IO-{m}", module="MC_IO", expect="violation", cfg=cfg(consts=c(m, 2, 2), inv=[i])))
    return r


def beh_io(tier):
    return dict(module="MC_IO", cfg=cfg(consts={"LENS": "{1}", "MAXT": 1, "SCHED": 4 if tier == "quick" else 6, "MUT": '"none"', "EMIT": "TRUE"}, inv=["Prefix"]))


def mc_fault(tier):
    inv = ["Surfaces", "Clean"]
    return [dict(name="Fault", module="MC_Fault", cfg=cfg(consts={"MUT": '"none"'}, inv=inv))] + [
        dict(name=f"Fault-{m}", module="MC_Fault", expect="violation", cfg=cfg(consts={"MUT": f'"{m}"'}, inv=["Surfaces"])) for m in ("swallow", "panic", "unflushed")]


PROPS["C11"] = dict(level="model_checking",
    rule="one scenario = one writer, reader, merger or sorter run, repeated under 7 further schedules; distinct = distinct contents; non-trivial: every schedule but two splits or interrupts transfers",
    mc=mc_io,
    steps=lambda t: [step(trace=trace("Trace_IO"), behaviours=beh_io(t)), rel(trace=trace("Trace_IO"))])
PROPS["C12"] = dict(level="model_checking",
    rule="one scenario = one writer, reader, merger or sorter run, repeated with the k-th component call failing, for the ks and kinds counted under measured; distinct = distinct contents",
    mc=mc_fault,
    steps=lambda t: [step(trace=trace("Trace_Fault")), rel(trace=trace("Trace_Fault")), fam("C12")])


# ---- memory

def buf_consts(n, mut="none", emit="FALSE"):
    return {"INITCAP": 128, "T": 1024, "N": n, "MUT": f'"{mut}"', "EMIT": emit}


def mc_buffer(tier):
    return [dict(name="Buffer", module="MC_Buffer", workers=4, heap="4g" if tier == "quick" else "12g", cfg=cfg(consts=buf_consts(5 if tier == "quick" else 7), inv=["Safe"]))] + [
        dict(name=f"Buffer-{m}", module="MC_Buffer", expect="violation", cfg=cfg(consts=buf_consts(4, m), inv=["Safe"])) for m in ("nobound", "front")]


def beh_buffer(tier):
    return dict(module="MC_Buffer", cfg=cfg(consts=buf_consts(4 if tier == "quick" else 5, emit="TRUE"), inv=["Safe"]))


ASAN = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1"}
PROPS["C17"] = dict(level="model_checking",
    rule="one scenario = a batch of entry-size sequences of the buffer model, or one sorter, reader or merger run, on a checking allocator (guard bands, layouts, releases) and under AddressSanitizer",
    mc=lambda t: mc_buffer(t) + ap_buffer(t),
    steps=lambda t: [step(flavour="guard", trace=trace("Trace_Heap"), behaviours=beh_buffer(t)),
                     step(flavour="asan", env=ASAN, scale=0.5, trace=trace("Trace_Heap"), behaviours=beh_buffer(t))]
                    # every read path that hands out borrowed entries, as the other properties drive them
                    + [step(flavour="asan", env=ASAN, run=p, scale=x, seed=2000, aside=True, shards=2, arith=True)
                       for p, x in (("C02", 0.05), ("C03", 0.3), ("C04", 0.08), ("C05", 0.1), ("C06", 0.3), ("C07", 0.3), ("C10", 0.05),
                                    ("C11", 0.2), ("C13", 0.3), ("C16", 0.2), ("C18", 0.3))]
                    # the borrowing and aliasing rules themselves, on a few scenarios
                    + ([] if t == "quick" else [step(flavour="miri", scale=0.1, seed=3000, aside=True, shards=2)]))
