---------------------------- MODULE Trace_Family ----------------------------
(* Executions over files of the Family: millions of entries, blocks and index *)
(* blocks of more entries than sixteen (twenty, thirty-two) bits count.       *)
EXTENDS Store, Json, TLC, IOUtils
CONSTANTS COST, KNOWN  \* ids of recorded findings
F == INSTANCE Family
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n, cs, lv
vars == <<l, n, cs, lv>>
Init == l = 1 /\ n = 0 /\ cs = <<>> /\ lv = 0
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Keep == UNCHANGED <<n, lv>>
Set(c, d) == cs' = [x \in (DOMAIN cs) \cup {c} |-> IF x = c THEN d ELSE cs[x]]
C == cs[E.c]
Cheap == COST => E.ld <= 2 * (lv + 2)

Begin == Is("begin") /\ n' = E.n /\ lv' = E.lv /\ cs' = <<>>
Open == /\ Is("open") /\ E.r = 0 /\ E.len = n /\ E.empty = (n = 0)
        /\ E.codec = E.wcodec /\ E.ver = E.wver
        /\ (COST => E.tronly /\ E.ld = 0)
        /\ Keep /\ UNCHANGED cs
(* a raw snappy block holds less than 2^32 * 6/7 bytes: the insert fails (a recorded finding) *)
Refused == /\ Is("refused") /\ E.codec = 1 /\ E.mib > 3500 /\ "C01-RAW-SNAPPY" \in KNOWN
           /\ PrintT("KNOWN C01-RAW-SNAPPY") /\ Keep /\ UNCHANGED cs
Fresh == Is("fresh") /\ E.r = 0 /\ Cheap /\ Set(E.c, FreshCur) /\ Keep
Clone == Is("clone") /\ Set(E.d, cs[E.c]) /\ Keep
Reset == Is("reset") /\ Set(E.c, FreshCur) /\ Keep
Go(r) == Cheap /\ E.r = r /\ Set(E.c, After(C, r, 0)) /\ Keep
First == Is("first") /\ Go(IF n > 0 THEN 1 ELSE 0)
Last == Is("last") /\ Go(n)
(* what a relative move answers after a None is not said *)
Free == Cheap /\ E.r \in 0..n /\ C.st = "lost" /\ Set(E.c, C) /\ Keep
Next_ == Is("next") /\ IF C.st = "lost" THEN Free
                       ELSE Go(IF C.st = "fresh" THEN IF n > 0 THEN 1 ELSE 0 ELSE IF C.i < n THEN C.i + 1 ELSE 0)
Prev_ == Is("prev") /\ IF C.st = "lost" THEN Free
                       ELSE Go(IF C.st = "fresh" THEN n ELSE C.i - 1)
Ge == Is("ge") /\ Go(F!CeilOf(n, E.q))
Le == Is("le") /\ Go(F!FloorOf(n, E.q))
Eq == Is("eq") /\ Go(F!MatchOf(n, E.q))
Scan == Is("scan") /\ Keep /\ UNCHANGED cs /\ F!Lists(1, n, E.rev, E.s)
Range == Is("range") /\ Keep /\ UNCHANGED cs /\ F!Lists(F!FromOf(E.lo), F!ToOf(n, E.hi), E.rev, E.s)
Prefix == Is("prefix") /\ Keep /\ UNCHANGED cs
          /\ F!Lists(F!FromOf(F!PreLo(E.b, E.p)), F!ToOf(n, F!PreHi(E.b, E.p)), E.rev, E.s)
End == Is("end") /\ Keep /\ UNCHANGED cs
Next == \/ Begin \/ Open \/ Refused \/ Fresh \/ Clone \/ Reset \/ First \/ Last \/ Next_ \/ Prev_
        \/ Ge \/ Le \/ Eq \/ Scan \/ Range \/ Prefix \/ End
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ PrintT(<<"REJECTED AT LINE", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
