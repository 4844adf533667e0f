------------------------------- MODULE Writer -------------------------------
(* The writer: a data block and one pending index block per level; a block is *)
(* emitted when its size reaches the block size, its last key and position go  *)
(* to the index block above; the two top levels are written at the end only.   *)
(* Keys are integers (order only matters), sizes are bytes.                     *)
EXTENDS Format

EmptyBlk == [ks |-> <<>>, n |-> 0, sum |-> 0, last |-> -1, kids |-> <<>>, es |-> <<>>]
(* cfg: [B, I, lv]; st: [data, idx (1 = root), out, panic] *)
WInit(cfg) == [data |-> EmptyBlk, idx |-> [l \in 1..(cfg.lv + 1) |-> EmptyBlk], out |-> <<>>, panic |-> FALSE]
Size(cfg, b) == BlockSize(b.sum, b.n, cfg.I)
Full(cfg, b) == Size(cfg, b) >= cfg.B
Refuses(b, k) == b.n > 0 /\ k <= b.last
Add(b, k, sz, kid, keep) == [b EXCEPT !.n = @ + 1, !.sum = @ + sz, !.last = k,
                                !.ks = IF keep THEN Append(@, k) ELSE @,
                                !.es = IF keep THEN Append(@, sz) ELSE @,
                                !.kids = IF keep THEN Append(@, kid) ELSE @]
(* emit block b of level l (0 = root, lv+1 = data); `out` is kept when keep *)
Emit(st, l, b, keep) == [st EXCEPT !.out = IF keep THEN Append(@, [l |-> l, ks |-> b.ks, es |-> b.es, kids |-> b.kids, sum |-> b.sum, n |-> b.n]) ELSE @]

(* record block b (emitted next) in index level l (from 1) *)
Record(st, l, b, isz, keep) ==
  IF Refuses(st.idx[l], b.last) THEN [st EXCEPT !.panic = TRUE]
  ELSE [st EXCEPT !.idx[l] = Add(@, b.last, isz, Len(st.out) + 1, keep)]

RECURSIVE CutIdx(_, _, _, _, _)
CutIdx(cfg, st, l, isz, keep) ==
  IF st.panic \/ l < 3 THEN st
  ELSE LET b == st.idx[l]
       IN IF ~Full(cfg, b) \/ b.n = 0 THEN CutIdx(cfg, st, l - 1, isz, keep)
          ELSE LET s1 == Record(st, l - 1, b, isz, keep)
               IN IF s1.panic THEN s1
                  ELSE LET s2 == [Emit(s1, l - 1, b, keep) EXCEPT !.idx[l] = EmptyBlk]
                       IN CutIdx(cfg, s2, l - 1, isz, keep)

(* sz: size of the entry, isz: size of an index entry holding the key *)
WInsert(cfg, st, k, sz, isz, keep) ==
  IF Refuses(st.data, k) THEN [st EXCEPT !.panic = TRUE]
  ELSE LET d == Add(st.data, k, sz, 0, keep)
           s1 == [st EXCEPT !.data = d]
       IN IF ~Full(cfg, d) THEN s1
          ELSE LET s2 == Record(s1, cfg.lv + 1, d, isz, keep)
               IN IF s2.panic THEN s2
                  ELSE CutIdx(cfg, [Emit(s2, cfg.lv + 1, d, keep) EXCEPT !.data = EmptyBlk], cfg.lv + 1, isz, keep)

RECURSIVE FinIdx(_, _, _, _, _)
FinIdx(cfg, st, l, isz, keep) ==
  IF st.panic \/ l = 0 THEN st
  ELSE LET b == st.idx[l]
       IN IF b.n = 0 THEN FinIdx(cfg, IF l = 1 THEN Emit(st, 0, b, keep) ELSE st, l - 1, isz, keep)
          ELSE LET s1 == IF l > 1 THEN Record(st, l - 1, b, isz, keep) ELSE st
               IN IF s1.panic THEN s1 ELSE FinIdx(cfg, Emit(s1, l - 1, b, keep), l - 1, isz, keep)
WFinish(cfg, st, isz, keep) ==
  LET s1 == IF st.data.n = 0 THEN st ELSE Record(st, cfg.lv + 1, st.data, isz, keep)
  IN IF s1.panic THEN s1
     ELSE FinIdx(cfg, IF st.data.n = 0 THEN s1 ELSE Emit(s1, cfg.lv + 1, st.data, keep), cfg.lv + 1, isz, keep)

(* ---- C15: bounds on an emitted block, from its entry sizes ------------------- *)
(* without its final entry it would be smaller than B *)
NotOver(es, I, B) == Len(es) > 0 => BlockSize(Sum(es) - es[Len(es)], Len(es) - 1, I) < B
(* and it was not emitted before reaching B, unless it is the last of its level *)
Reached(es, I, B) == BlockSize(Sum(es), Len(es), I) >= B
CutLevels(lv) == {lv + 1} \cup 2..lv
(* ---- C18 ------------------------------------------------------------------------ *)
Strict(ks) == \A i \in 1..(Len(ks) - 1) : ks[i] < ks[i + 1]
=============================================================================
