----------------------------- MODULE MC_Family -----------------------------
(* Family agrees with Store on every small member: every probe, every pair of *)
(* bounds, and every prefix (keys as two-digit numbers in base BASE there).   *)
EXTENDS Store, TLC
CONSTANTS MAXN, MUT
F == INSTANCE Family
VARIABLES n, a, b, t, u
vars == <<n, a, b, t, u>>
Q == 0..(2 * MAXN + 2)
T == {"unb", "inc", "exc"}
Init == n \in 0..MAXN /\ a \in Q /\ b \in Q /\ t \in T /\ u \in T
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Ks == [i \in 1..n |-> <<2 * i - 1>>]
Sh == IF MUT THEN 1 ELSE 0
Seeks == /\ CeilDef(Ks, <<a>>, F!CeilOf(n, a))
         /\ FloorDef(Ks, <<a>>, F!FloorOf(n, a + Sh))
         /\ MatchDef(Ks, <<a>>, F!MatchOf(n, a))
Ranges == LET S == InRange(Ks, [t |-> t, k |-> <<a>>], [t |-> u, k |-> <<b>>])
              f == F!FromOf([t |-> t, k |-> a])
              g == F!ToOf(n, [t |-> u, k |-> b])
          IN S = f..g
=============================================================================
