------------------------------ MODULE MC_Buffer -----------------------------
EXTENDS Buffer, TLC, Json
CONSTANTS INITCAP, T, N, MUT, EMIT
VARIABLES re, st, szs
vars == <<re, st, szs>>
Init == re \in BOOLEAN /\ st = BufInit(IF re THEN INITCAP ELSE T) /\ szs = <<>>
(* sizes of keys and values around what fits exactly, and around the whole buffer *)
Sizes == {s \in {0, 1, Room(st) - BOUND - 1, Room(st) - BOUND, Room(st) - BOUND + 1, Room(st), st.cap - BOUND, st.cap, 2 * st.cap + 3} : s >= 0}
Next == /\ Len(szs) < N
        /\ \E s \in Sizes : st' = BufInsert(T, re, st, s, MUT) /\ szs' = Append(szs, s)
        /\ UNCHANGED re
        /\ (EMIT /\ Len(szs') = N => PrintT(ToJson([realloc |-> re, T |-> T, szs |-> szs'])))
Spec == Init /\ [][Next]_vars
(* C17 *)
Safe == Inside(st) /\ Disjoint(st) /\ Readable(st) /\ Aligned(st)
=============================================================================
