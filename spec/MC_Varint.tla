------------------------------ MODULE MC_Varint ------------------------------
(* Every length of a scaled-down framing: encoding is total and injective,     *)
(* decoding inverts it whatever follows and consumes exactly its bytes, no      *)
(* encoding is a prefix of another one.                                          *)
EXTENDS Varint, TLC
CONSTANT MUT
VARIABLE d
Init == d \in {[i \in 1..N |-> IF i < N THEN x[1][i] ELSE x[2]] : x \in Lengths}
Next == UNCHANGED d
Spec == Init /\ [][Next]_d
E(x) == IF MUT = "trim" /\ EncLen(x) = 3 THEN [Enc(x) EXCEPT ![3] = 0] ELSE Enc(x)
Tails == {<<>>, <<0>>, <<BASE>>, <<2 * BASE - 1, 2 * BASE - 1>>}
RoundTrip == \A t \in Tails : DecLen(E(d) \o t, 1) = Len(E(d)) /\ Dec(E(d) \o t) = d
Bytes == Len(E(d)) \in 1..N /\ \A i \in DOMAIN E(d) : E(d)[i] \in 0..(2 * BASE - 1)
Le(x, y) == x = y \/ \E i \in 1..N : x[i] < y[i] /\ \A j \in (i + 1)..N : x[j] = y[j]
Class == LET L == Len(E(d)) IN Le(ClassLo(L), d) /\ Le(d, ClassHi(L))
Truncated == \A k \in 0..(Len(E(d)) - 1) : DecLen(SubSeq(E(d), 1, k), 1) = 0
=============================================================================
