----------------------------- MODULE Trace_Wide -----------------------------
(* Mergers of very many sources (C06): source s of 1..n holds the keys 1..D that *)
(* divide s, and key D + s if `own` does; its values are s.  Merger's oracle in  *)
(* closed form: the holders of a key in source order are its multiples.          *)
EXTENDS Integers, Sequences, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, k, ms
vars == <<l, c, k, ms>>
Init == l = 1 /\ c = <<>> /\ k = 0 /\ ms = <<>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Begin == Is("begin") /\ c' = E /\ k' = 0 /\ ms' = <<>>
Holders(m) == IF m <= c.d THEN c.n \div m
              ELSE IF m - c.d <= c.n /\ (m - c.d) % c.own = 0 THEN 1 ELSE 0
RECURSIVE After(_)
After(m) == IF m > c.d + c.n THEN 0
            ELSE IF m <= c.d THEN IF Holders(m) > 0 THEN m ELSE After(m + 1)
            \* the next multiple of `own`
            ELSE LET s == m - c.d  u == ((s + c.own - 1) \div c.own) * c.own IN IF u <= c.n THEN c.d + u ELSE 0
(* a call of the merge function: all the values, in source order, once *)
M == /\ Is("m") /\ E.k \notin DOMAIN ms /\ Holders(E.k) = E.cnt /\ E.even
     /\ IF E.k <= c.d THEN /\ E.from = E.k /\ E.to = E.k * E.cnt
                           /\ (E.cnt > 1 => E.next = 2 * E.k)
        ELSE E.from = E.k - c.d /\ E.to = E.from
     /\ ms' = [x \in (DOMAIN ms) \cup {E.k} |-> IF x = E.k THEN E.r ELSE ms[x]]
     /\ UNCHANGED <<c, k>>
N == /\ Is("n") /\ UNCHANGED <<c, ms>>
     /\ LET m == After(k + 1)
        IN IF m = 0 THEN E.r = 0 /\ k' = k
           ELSE /\ E.r = 1 /\ E.k = m /\ k' = m
                /\ IF Holders(m) = 1 THEN E.v = (IF m <= c.d THEN m ELSE m - c.d)
                   ELSE m \in DOMAIN ms /\ E.v = ms[m]
End == Is("end") /\ UNCHANGED <<c, k, ms>>
Next == Begin \/ M \/ N \/ End
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ PrintT(<<"REJECTED AT LINE", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
