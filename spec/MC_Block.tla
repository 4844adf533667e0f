------------------------------ MODULE MC_Block ------------------------------
(* Every block of at most N entries (entry i has key 2i), every interval,    *)
(* every probe, every position: the footer mechanism computes the meaning.   *)
EXTENDS Block, TLC
CONSTANTS N, BUG
VARIABLES n, I, q, p
Blk(k) == [i \in 1..k |-> 2 * i]
Init == /\ n \in 0..N /\ I \in 1..(N + 1) /\ q \in 0..(2 * N + 2) /\ p \in 0..(N + 1)
        /\ p <= n + 1
Next == UNCHANGED <<n, I, q, p>>
Spec == Init /\ [][Next]_<<n, I, q, p>>
(* the mutant starts the linear scan one footer element too far *)
BLe2(b, i, x) == IF BUG THEN LET f == Foot(b, i)
                                 s == FSearch(b, f, x)
                             IN IF s.ok THEN f[s.i] ELSE IF s.i = 0 THEN 0
                                ELSE IF s.i < Len(f) THEN FScan(b, f[s.i + 1], x, 0) ELSE FScan(b, f[s.i], x, 0)
                 ELSE FLe(b, i, x)
LeOk == BLe2(Blk(n), I, q) = BLe(Blk(n), q)
GeOk == FGe(Blk(n), I, q) = BGe(Blk(n), q)
PrevOk == /\ FPrev(Blk(n), I, p).r = BPrevRet(Blk(n), p)
          /\ FPrev(Blk(n), I, p).pos = BPrev(Blk(n), p)
LastOk == FLast(Blk(n), I, p) = BLast(Blk(n), p)
=============================================================================
