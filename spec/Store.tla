------------------------------- MODULE Store -------------------------------
(* The abstract content of a finished file and everything a reader may be   *)
(* asked about it.  A file is the sequence `ks` of its keys in file order;  *)
(* entry i is the i-th inserted pair; 0 stands for None.                    *)
(* This module is the oracle of C01-C05 and C10 and is what the concrete    *)
(* Cursor module is checked to refine.                                      *)
EXTENDS ByteStr

Ascending(ks) == \A i \in 1..(Len(ks)-1) : Less(ks[i], ks[i+1])

(* ---- seeks, by definition ------------------------------------------------ *)
CeilDef(ks, q, r) ==
  \/ r \in 1..Len(ks) /\ Leq(q, ks[r]) /\ \A i \in 1..Len(ks) : Leq(q, ks[i]) => i >= r
  \/ r = 0 /\ \A i \in 1..Len(ks) : Less(ks[i], q)
FloorDef(ks, q, r) ==
  \/ r \in 1..Len(ks) /\ Leq(ks[r], q) /\ \A i \in 1..Len(ks) : Leq(ks[i], q) => i <= r
  \/ r = 0 /\ \A i \in 1..Len(ks) : Less(q, ks[i])
MatchDef(ks, q, r) ==
  \/ r \in 1..Len(ks) /\ ks[r] = q
  \/ r = 0 /\ \A i \in 1..Len(ks) : ks[i] # q

(* ---- the same, looking at the neighbours only (equivalent on ascending    *)
(*      sequences: MC_Store checks it exhaustively) ------------------------- *)
IsCeil(ks, q, r) ==
  \/ /\ r \in 1..Len(ks) /\ ~Less(ks[r], q)
     /\ (r > 1 => Less(ks[r-1], q))
  \/ r = 0 /\ (Len(ks) > 0 => Less(ks[Len(ks)], q))
IsFloor(ks, q, r) ==
  \/ /\ r \in 1..Len(ks) /\ ~Less(q, ks[r])
     /\ (r < Len(ks) => Less(q, ks[r+1]))
  \/ r = 0 /\ (Len(ks) > 0 => Less(q, ks[1]))
Ceil(ks, q)  == CHOOSE r \in 0..Len(ks) : IsCeil(ks, q, r)
Floor(ks, q) == CHOOSE r \in 0..Len(ks) : IsFloor(ks, q, r)
(* Match through the floor: the only candidate.  O(log n) floor for traces. *)
RECURSIVE FloorBin(_, _, _, _)
FloorBin(ks, q, lo, hi) ==   \* greatest r in lo..hi with ks[r] <= q, lo-1 if none
  IF lo > hi THEN lo - 1
  ELSE LET m == (lo + hi) \div 2
       IN IF Less(q, ks[m]) THEN FloorBin(ks, q, lo, m - 1) ELSE FloorBin(ks, q, m + 1, hi)
FloorFast(ks, q) == FloorBin(ks, q, 1, Len(ks))
CeilFast(ks, q) ==
  LET f == FloorFast(ks, q)
  IN IF f > 0 /\ ks[f] = q THEN f ELSE IF f < Len(ks) THEN f + 1 ELSE 0
Match(ks, q) == LET f == FloorFast(ks, q) IN IF f > 0 /\ ks[f] = q THEN f ELSE 0

(* ---- ranges and prefixes -------------------------------------------------- *)
(* A bound is [t |-> "unb" | "inc" | "exc", k |-> byte string]. *)
AboveLo(lo, k) == CASE lo.t = "unb" -> TRUE
                    [] lo.t = "inc" -> Leq(lo.k, k)
                    [] lo.t = "exc" -> Less(lo.k, k)
BelowHi(hi, k) == CASE hi.t = "unb" -> TRUE
                    [] hi.t = "inc" -> Leq(k, hi.k)
                    [] hi.t = "exc" -> Less(k, hi.k)
InRange(ks, lo, hi) == {i \in 1..Len(ks) : AboveLo(lo, ks[i]) /\ BelowHi(hi, ks[i])}
InPrefix(ks, p) == {i \in 1..Len(ks) : IsPre(p, ks[i])}

(* rs lists exactly the elements of S, ascending (resp. descending). *)
ListsUp(rs, S) ==
  /\ {rs[i] : i \in 1..Len(rs)} = S
  /\ \A i \in 1..(Len(rs)-1) : rs[i] < rs[i+1]
ListsDown(rs, S) ==
  /\ {rs[i] : i \in 1..Len(rs)} = S
  /\ \A i \in 1..(Len(rs)-1) : rs[i] > rs[i+1]

(* ---- the abstract cursor --------------------------------------------------- *)
(* st: "fresh" never positioned or reset; "at" entry i was returned last;      *)
(*     "lost" an operation returned None (relative moves are unspecified until  *)
(*     the next absolute move or reset).                                        *)
(* last: the last returned entry since creation/reset (0 if none).              *)
(* phys: where the implementation is known to stand, for the recorded deviation *)
(*       on `current` after None (known finding C03-CURRENT); -1 = unknown.     *)
FreshCur == [st |-> "fresh", i |-> 0, last |-> 0, phys |-> 0]
AtCur(r) == [st |-> "at", i |-> r, last |-> r, phys |-> r]
LostCur(c, ph) == [st |-> "lost", i |-> 0, last |-> c.last, phys |-> ph]
After(c, r, ph) == IF r > 0 THEN AtCur(r) ELSE LostCur(c, ph)

NextOf(ks, c) == CASE c.st = "fresh" -> IF Len(ks) > 0 THEN 1 ELSE 0
                   [] c.st = "at"    -> IF c.i < Len(ks) THEN c.i + 1 ELSE 0
PrevOf(ks, c) == CASE c.st = "fresh" -> Len(ks)
                   [] c.st = "at"    -> c.i - 1

FirstStep(ks, c, r, d) == /\ r = (IF Len(ks) > 0 THEN 1 ELSE 0)
                          /\ d = After(c, r, 0)
LastStep(ks, c, r, d)  == /\ r = Len(ks)
                          /\ d = After(c, r, 0)
NextStep(ks, c, r, d)  ==
  IF c.st = "lost" THEN /\ r \in 0..Len(ks)
                        /\ d = [c EXCEPT !.last = IF r > 0 THEN r ELSE @,
                                         !.phys = IF r > 0 THEN r ELSE -1]
                   ELSE /\ r = NextOf(ks, c)
                        /\ d = After(c, r, 0)
PrevStep(ks, c, r, d)  ==
  IF c.st = "lost" THEN /\ r \in 0..Len(ks)
                        /\ d = [c EXCEPT !.last = IF r > 0 THEN r ELSE @,
                                         !.phys = IF r > 0 THEN r ELSE -1]
                   ELSE /\ r = PrevOf(ks, c)
                        /\ d = After(c, r, c.phys)
GeStep(ks, c, q, r, d) == /\ IsCeil(ks, q, r)
                          /\ d = After(c, r, c.phys)
LeStep(ks, c, q, r, d) == /\ IsFloor(ks, q, r)
                          /\ d = After(c, r, IF Len(ks) > 0 THEN 1 ELSE 0)
EqStep(ks, c, q, r, d) == /\ r = Match(ks, q)
                          /\ d = After(c, r, LET e == CeilFast(ks, q)
                                             IN IF e > 0 THEN e ELSE c.phys)
ResetStep(c, d) == d = FreshCur

(* `current` equals the last returned entry.  After a None the code reports its *)
(* physical position instead: deviation recorded as a known finding.            *)
CurrentStrict(c, r) == CASE c.st = "fresh" -> r = 0
                         [] c.st = "at"    -> r = c.i
                         [] c.st = "lost"  -> r = c.last
(* Where no entry was returned, having none (r = 0) is the same deviation: what   *)
(* stays after a None depends on how the seek walks, not on what it answers.     *)
CurrentDeviates(c, r) == c.st = "lost" /\ r # c.last /\ (c.phys = -1 \/ r \in {0, c.phys})
=============================================================================
