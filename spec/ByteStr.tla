------------------------------ MODULE ByteStr ------------------------------
(* Byte strings, their lexicographic order and the prefix relation.         *)
(* A byte string is a sequence of naturals; `Rank` embeddings use sequences *)
(* of one larger number, which the definitions below do not care about.     *)
EXTENDS Integers, Sequences

(* The definition: a is smaller at the first difference, or a proper prefix. *)
LessDef(a, b) ==
  \/ Len(a) < Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
  \/ \E i \in 1..Len(a) : /\ i <= Len(b)
                          /\ a[i] < b[i]
                          /\ \A j \in 1..(i-1) : a[j] = b[j]

(* The same, evaluated left to right (MC_ByteStr checks that they agree). *)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] = b[i] THEN LessFrom(a, b, i + 1)
  ELSE a[i] < b[i]
Less(a, b) == LessFrom(a, b, 1)
Leq(a, b)  == ~Less(b, a)

IsPre(p, k) == /\ Len(p) <= Len(k)
               /\ \A i \in 1..Len(p) : p[i] = k[i]

(* The smallest byte string above every string with prefix p, or <<>> when  *)
(* p consists of Top bytes only (there is none): the carrying computation   *)
(* used by the reverse prefix iterator.                                     *)
RECURSIVE Advance(_, _)
Advance(p, Top) ==
  IF p = <<>> THEN <<>>
  ELSE IF p[Len(p)] < Top
       THEN [p EXCEPT ![Len(p)] = @ + 1]
       ELSE Advance(SubSeq(p, 1, Len(p) - 1), Top)
=============================================================================
