------------------------------- MODULE Sorter -------------------------------
(* The external sorter: an in-memory buffer of unsorted entries, spilled as    *)
(* sorted runs (chunks), oldest first; runs are merged into one when there are  *)
(* too many.  Sizes are in units of one entry bound (16 bytes); an entry of     *)
(* size u takes u units, bound included.  The merge function is concatenation:  *)
(* a value is the sequence of the inserts it is made of.                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* cfg: [T threshold, realloc, max, init, stable];                               *)
(* st: [cap, used, buf: seq of [k, i, u], chunks: seq of runs,                   *)
(*      live, maxlive: existing chunks]; run: seq of [k, is]                      *)
SInit(cfg) == [cap |-> IF cfg.realloc THEN cfg.init ELSE cfg.T, used |-> 0, buf |-> <<>>, chunks |-> <<>>, maxlive |-> 0]
KeysIn(buf) == {buf[j].k : j \in DOMAIN buf}
Tags(buf, k) == LET s == SelectSeq(buf, LAMBDA e : e.k = k) IN [j \in DOMAIN s |-> s[j].i]
Rev(s) == [j \in DOMAIN s |-> s[Len(s) + 1 - j]]
(* sort by key and merge every group; mut "unstable" reverses the groups *)
SortedRun(buf, mut) == LET q == SetToSortSeq(KeysIn(buf), <)
                       IN [j \in DOMAIN q |-> [k |-> q[j], is |-> IF mut = "unstable" THEN Rev(Tags(buf, q[j])) ELSE Tags(buf, q[j])]]
RunKeys(r) == {r[j].k : j \in DOMAIN r}
Of(r, k) == IF k \in RunKeys(r) THEN r[CHOOSE j \in DOMAIN r : r[j].k = k].is ELSE <<>>
RECURSIVE Cat(_, _, _)
Cat(rs, k, j) == IF j > Len(rs) THEN <<>> ELSE Of(rs[j], k) \o Cat(rs, k, j + 1)
MergeRuns(rs) == LET q == SetToSortSeq(UNION {RunKeys(rs[j]) : j \in DOMAIN rs}, <)
                 IN [j \in DOMAIN q |-> [k |-> q[j], is |-> Cat(rs, q[j], 1)]]
RECURSIVE Grow(_, _)
Grow(cap, need) == IF need <= cap THEN cap ELSE Grow(2 * cap, need)

Max2(a, b) == IF a >= b THEN a ELSE b
Spill(st, mut) == [st EXCEPT !.chunks = IF mut = "front" THEN <<SortedRun(st.buf, mut)>> \o @ ELSE Append(@, SortedRun(st.buf, mut)),
                             !.used = 0, !.buf = <<>>, !.maxlive = Max2(@, Len(st.chunks) + 1)]
MergeChunks(st) == [st EXCEPT !.chunks = <<MergeRuns(@)>>, !.maxlive = Max2(@, Len(st.chunks) + 1)]
Put(st, e) == LET c == Grow(st.cap, st.used + e.u)
              IN [st EXCEPT !.cap = c, !.used = @ + e.u, !.buf = Append(@, e)]
(* mut "grow": the buffer also grows beyond the threshold *)
SInsert(cfg, st, e, mut) ==
  IF st.used + e.u <= st.cap \/ (cfg.realloc /\ (st.cap < cfg.T \/ mut = "grow")) THEN Put(st, e)
  ELSE LET s == Put(Spill(st, mut), e)
       IN IF Len(s.chunks) >= cfg.max /\ mut # "nomerge" THEN MergeChunks(s) ELSE s
SFinish(st, mut) == Spill(st, mut)
SOutput(st) == MergeRuns(st.chunks)

(* ---- what it must output ------------------------------------------------------ *)
Expected(ins) == SortedRun(ins, "none")
=============================================================================
