---------------------------- MODULE Trace_Writer ----------------------------
(* Recorded inserts and the blocks of the finished file (C15, C18).  A trace   *)
(* starts every scenario with the configuration; LAYOUT adds C15's bounds.     *)
EXTENDS Writer, Json, TLC, IOUtils
CONSTANT LAYOUT
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, st, phase
vars == <<l, c, st, phase>>
Init == l = 1 /\ c = [B |-> 0, I |-> 1, lv |-> 0] /\ st = 0 /\ phase = "none"
(* evaluated as a value: TLC would unroll a quantifier of an action *)
Holds(p) == IF p THEN TRUE ELSE FALSE
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
(* values below 1024 are treated as 1024 *)
Begin == /\ Is("begin")
         /\ c' = [B |-> IF E.B < 1024 THEN 1024 ELSE E.B, I |-> E.I, lv |-> E.lv]
         /\ st' = WInit(c') /\ phase' = "open"
(* r: 0 done, -3 panic.  The insert panics exactly when the key does not exceed its   *)
(* predecessor in the block under construction, or the block it completes cannot be    *)
(* recorded above.  A writer that does not panic may still be right, if every block of  *)
(* the finished file is sorted: the model then has nothing more to say ("loose").       *)
(* A block that cannot be recorded may also be found out later, when it is emitted only  *)
(* before the next insert or at the end ("late").                                        *)
Ins == /\ Is("ins") /\ phase \in {"open", "loose", "late"}
       /\ IF phase # "open" THEN /\ st' = st
                                /\ E.r \in (IF phase = "late" THEN {0, -3} ELSE {0})
                                /\ phase' = IF E.r = -3 THEN "panicked" ELSE phase
          ELSE \E s \in {WInsert(c, st, E.k, EntrySize(E.kl, E.vl), IndexEntrySize(E.kl), FALSE)} :
                 /\ E.r \in {0, -3}
                 /\ (E.r = -3 => s.panic)
                 /\ st' = s
                 /\ phase' = IF E.r = -3 THEN "panicked" ELSE IF ~s.panic THEN "open"
                               ELSE IF Refuses(st.data, E.k) THEN "loose" ELSE "late"
       /\ UNCHANGED c
Fin == /\ Is("fin") /\ phase \in {"open", "loose", "late"}
       /\ E.r \in {0, -3}
       /\ (E.r = -3 => phase = "late" \/ (phase = "open" /\ WFinish(c, st, 9, FALSE).panic))
       /\ phase' = IF E.r = 0 THEN "done" ELSE "panicked"
       /\ UNCHANGED <<c, st>>
(* one block of the finished file; `fl`: the last of its level *)
Blk == /\ Is("blk") /\ phase = "done"
       /\ Holds(Strict(E.ks))
       /\ (LAYOUT /\ E.l \in CutLevels(c.lv)) =>
             /\ E.sz = BlockSize(Sum(E.es), Len(E.es), c.I)
             /\ Holds(NotOver(E.es, c.I, c.B))
             /\ E.fl \/ E.sz >= c.B
       /\ UNCHANGED <<c, st, phase>>
End == Is("end") /\ phase \in {"done", "panicked"} /\ UNCHANGED <<c, st, phase>>
Next == Begin \/ Ins \/ Fin \/ Blk \/ End
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ PrintT(<<"REJECTED AT LINE", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
