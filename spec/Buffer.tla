------------------------------- MODULE Buffer -------------------------------
(* The sorter's in-memory buffer, byte by byte: bounds of BOUND bytes grow from   *)
(* the front, keys and values from the back; when an entry does not fit the        *)
(* buffer is replaced by one twice as large, or written out and emptied.            *)
EXTENDS Integers, Sequences, FiniteSets
(* st: [cap, used: bytes of keys and values, ents: seq of [start, len] (start counts  *)
(*      from the end), mem: set of [lo, hi, tag], spills]                              *)
BOUND == 16
BufInit(cap) == [cap |-> cap, used |-> 0, ents |-> <<>>, mem |-> {}, spills |-> 0]
BoundsEnd(st) == BOUND * Len(st.ents)
Room(st) == st.cap - st.used - BoundsEnd(st)
(* mut "nobound": the fit test forgets the entry's own bound *)
Fits(st, sz, mut) == IF mut = "nobound" THEN Room(st) >= sz ELSE Room(st) >= BOUND + sz
Place(st, sz) ==
  LET n == Len(st.ents) + 1
      lo == st.cap - st.used - sz
      new == {[lo |-> lo, hi |-> lo + sz, tag |-> n], [lo |-> BoundsEnd(st), hi |-> BoundsEnd(st) + BOUND, tag |-> 0 - n]}
      (* a write destroys what it overlaps *)
      over(m) == \E w \in new : m.lo < w.hi /\ w.lo < m.hi
  IN [st EXCEPT !.used = @ + sz, !.ents = Append(@, [start |-> st.used + sz, len |-> sz]),
                !.mem = {m \in @ : ~over(m)} \cup new]
(* the bounds keep their distance to the front, the bytes theirs to the back;      *)
(* mut "front": everything is copied to where it was                                *)
Realloc(st, mut) ==
  LET d == st.cap
  IN [st EXCEPT !.cap = 2 * @,
                !.mem = {IF m.tag > 0 /\ mut # "front" THEN [m EXCEPT !.lo = @ + d, !.hi = @ + d] ELSE m : m \in @}]
RECURSIVE Put(_, _, _)
Put(st, sz, mut) == IF Fits(st, sz, mut) THEN Place(st, sz) ELSE Put(Realloc(st, mut), sz, mut)
Empty(st) == [st EXCEPT !.used = 0, !.ents = <<>>, !.mem = {}, !.spills = @ + 1]
BufInsert(T, realloc, st, sz, mut) ==
  IF Fits(st, sz, mut) \/ (realloc /\ st.cap < T) THEN Put(st, sz, mut)
  ELSE Put(Empty(st), sz, mut)
(* ---- properties ------------------------------------------------------------------ *)
Inside(st) == \A m \in st.mem : 0 <= m.lo /\ m.lo <= m.hi /\ m.hi <= st.cap
Disjoint(st) == \A a, b \in st.mem : a # b => a.hi <= b.lo \/ b.hi <= a.lo
(* every entry is found, through its bound, where it was put *)
Readable(st) == \A j \in DOMAIN st.ents :
  LET lo == st.cap - st.ents[j].start
  IN /\ [lo |-> lo, hi |-> lo + st.ents[j].len, tag |-> j] \in st.mem
     /\ [lo |-> BOUND * (j - 1), hi |-> BOUND * j, tag |-> 0 - j] \in st.mem
Aligned(st) == st.cap % BOUND = 0
=============================================================================
