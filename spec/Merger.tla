------------------------------- MODULE Merger -------------------------------
(* The k-way merge.  A source is [ks, vs]: strictly ascending keys (integers) *)
(* and their values.                                                          *)
EXTENDS Integers, Sequences, FiniteSets

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
KeysOf(src) == {src.ks[i] : i \in DOMAIN src.ks}
UnionKeys(srcs) == UNION {KeysOf(srcs[s]) : s \in DOMAIN srcs}
ValueIn(src, k) == src.vs[CHOOSE i \in DOMAIN src.ks : src.ks[i] = k]
RECURSIVE Collect(_, _, _)
Collect(srcs, k, s) == IF s > Len(srcs) THEN <<>>
                       ELSE (IF k \in KeysOf(srcs[s]) THEN <<ValueIn(srcs[s], k)>> ELSE <<>>) \o Collect(srcs, k, s + 1)
(* the values of k, by the position at which their sources were added *)
Values(srcs, k) == Collect(srcs, k, 1)

(* the same over positions: pos[s] entries of source s are behind (cheap for traces) *)
Head_(srcs, pos, s) == srcs[s].ks[pos[s] + 1]
Alive(srcs, pos) == {s \in DOMAIN srcs : pos[s] < Len(srcs[s].ks)}
NextKey(srcs, pos) == SetMin({Head_(srcs, pos, s) : s \in Alive(srcs, pos)})
HoldersAt(srcs, pos, k) == {s \in Alive(srcs, pos) : Head_(srcs, pos, s) = k}
RECURSIVE HeadsFrom(_, _, _, _)
HeadsFrom(srcs, pos, H, s) == IF s > Len(srcs) THEN <<>>
   ELSE (IF s \in H THEN <<srcs[s].vs[pos[s] + 1]>> ELSE <<>>) \o HeadsFrom(srcs, pos, H, s + 1)
Advance(pos, H) == [s \in DOMAIN pos |-> IF s \in H THEN pos[s] + 1 ELSE pos[s]]

(* ---- the algorithm: a heap of live cursors ordered by (key, source) --------- *)
(* mut: "none"; "lifo": ties broken by the later source; "one": only one other   *)
(* head joins a merge; "keep": joined cursors are not advanced                     *)
Before(srcs, pos, a, b, mut) ==
  \/ Head_(srcs, pos, a) < Head_(srcs, pos, b)
  \/ Head_(srcs, pos, a) = Head_(srcs, pos, b) /\ (IF mut = "lifo" THEN a >= b ELSE a <= b)
Top(srcs, pos, H, mut) == CHOOSE a \in H : \A b \in H : Before(srcs, pos, a, b, mut)
RECURSIVE PopEqual(_, _, _, _, _, _)
PopEqual(srcs, pos, heap, k, acc, mut) ==
  IF heap = {} \/ (mut = "one" /\ Len(acc) = 2) THEN acc
  ELSE LET t == Top(srcs, pos, heap, mut)
       IN IF Head_(srcs, pos, t) # k THEN acc
          ELSE PopEqual(srcs, pos, heap \ {t}, k, Append(acc, t), mut)
HeapStep(srcs, pos, mut) ==
  LET heap == Alive(srcs, pos)
      t == Top(srcs, pos, heap, mut)
      k == Head_(srcs, pos, t)
      popped == PopEqual(srcs, pos, heap, k, <<>>, mut)
  IN [k |-> k,
      vs |-> [i \in DOMAIN popped |-> srcs[popped[i]].vs[pos[popped[i]] + 1]],
      pos |-> [s \in DOMAIN pos |-> IF \E i \in DOMAIN popped : popped[i] = s /\ ~(mut = "keep" /\ i > 1 /\ i = Len(popped))
                                    THEN pos[s] + 1 ELSE pos[s]]]
=============================================================================
