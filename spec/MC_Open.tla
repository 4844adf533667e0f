------------------------------ MODULE MC_Open ------------------------------
(* Every byte string over a small alphabet, opened on a source that serves      *)
(* every read in any pieces: accepted exactly when it ends in a complete          *)
(* trailer, with that trailer's fields, and nothing else is read.                  *)
EXTENDS Open, TLC
CONSTANTS TOP, MAXLEN
VARIABLES b, s
vars == <<b, s>>
Init == (\E k \in 0..MAXLEN : b \in [1..k -> 0..TOP]) /\ s = Begin
Next == \E t \in Steps(b, s) : s' = t /\ UNCHANGED b
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Accepts == /\ s.pc = "ok" => TrailerOf(b) # 0 /\ s.f = FieldsOf(b, TrailerOf(b))
           /\ s.pc = "err" => TrailerOf(b) = 0
(* the magics differ, so no string ends in both trailers *)
One == ~(Complete(b, 1) /\ Complete(b, 2))
OnlyTrailer == /\ s.lo # -1 => Len(b) - s.lo <= TLenOf(2)
               /\ s.n <= TLenOf(2) + M
(* a proper truncation of an accepted string is accepted on its own merits only *)
Ends == <>(s.pc \in {"ok", "err"})
M1S == <<2>>
M2S == <<3>>
M1L == <<2, 0>>
M2L == <<3, 2>>
=============================================================================
