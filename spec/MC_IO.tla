------------------------------- MODULE MC_IO --------------------------------
(* Every cyclic schedule of at most SCHED choices against every plan.           *)
EXTENDS IO, TLC, Json, FiniteSets
CONSTANTS LENS, MAXT, SCHED, MUT, EMIT
VARIABLES plan, sch, p, st
vars == <<plan, sch, p, st>>
Plans == UNION {[1..n -> LENS] : n \in 0..MAXT}
Scheds == {s \in UNION {[1..n -> 0..3] : n \in 1..SCHED} : \E j \in DOMAIN s : s[j] # 0}
Init == /\ plan \in (IF EMIT THEN {<<>>} ELSE Plans) /\ sch \in Scheds
        /\ p = 1 /\ st = SkipEmpty(plan, IOInit)
        /\ (EMIT => PrintT(ToJson([sch |-> sch])))
Step == /\ ~IODone(plan, st)
        /\ st' = SkipEmpty(plan, IF sch[p] = 0 THEN Interrupt(plan, st, MUT)
                                 ELSE Serve(plan, st, Amount(sch[p], Rem(plan, st)), MUT))
        /\ p' = IF p = Len(sch) THEN 1 ELSE p + 1
        /\ UNCHANGED <<plan, sch>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
(* C11: what arrived is an initial part of what was to be moved, whatever the schedule *)
Prefix == st.moved = Span(0, Len(st.moved))
Complete == IODone(plan, st) => Len(st.moved) = Total(plan)
Offsets == st.offs = [j \in 1..(st.t - 1) |-> SumTo(plan, j)]
Ends == <>IODone(plan, st)
=============================================================================
