------------------------------- MODULE Family -------------------------------
(* Store for one family of contents, in closed form: n keys, the i-th being  *)
(* the number 2i-1, so that files of millions of entries can be asked about  *)
(* without spelling out their content.  A probe is a number: odd ones are    *)
(* keys (if not too large), even ones lie between keys.                      *)
(* MC_Family checks these forms against Store's definitions.                 *)
EXTENDS Integers

Cap(n, i) == IF i > n THEN n ELSE i
CeilOf(n, q)  == LET i == (q \div 2) + 1 IN IF i > n THEN 0 ELSE i
FloorOf(n, q) == Cap(n, (q + 1) \div 2)
MatchOf(n, q) == IF q % 2 = 1 /\ (q + 1) \div 2 <= n THEN (q + 1) \div 2 ELSE 0

(* the entries within two bounds: those from FromOf to ToOf *)
FromOf(lo) == CASE lo.t = "unb" -> 1
                [] lo.t = "inc" -> (lo.k \div 2) + 1
                [] lo.t = "exc" -> ((lo.k + 1) \div 2) + 1
ToOf(n, hi) == CASE hi.t = "unb" -> n
                 [] hi.t = "inc" -> Cap(n, (hi.k + 1) \div 2)
                 [] hi.t = "exc" -> Cap(n, hi.k \div 2)
(* keys are written as four bytes, most significant first; those that begin   *)
(* with the b bytes of p                                                      *)
Unit(b) == CASE b = 1 -> 16777216 [] b = 2 -> 65536 [] b = 3 -> 256 [] b = 4 -> 1
PreLo(b, p) == IF b = 0 THEN [t |-> "unb"] ELSE [t |-> "inc", k |-> p * Unit(b)]
PreHi(b, p) == IF b = 0 THEN [t |-> "unb"] ELSE [t |-> "inc", k |-> p * Unit(b) + (Unit(b) - 1)]

(* a listing of entries f..t, up or down, summed up: how many, the first, the  *)
(* last, and whether each was the neighbour of the one before                  *)
Lists(f, t, rev, s) ==
  IF f > t THEN s.cnt = 0
  ELSE /\ s.cnt = t - f + 1 /\ s.step
       /\ s.from = (IF rev THEN t ELSE f) /\ s.to = (IF rev THEN f ELSE t)
=============================================================================
