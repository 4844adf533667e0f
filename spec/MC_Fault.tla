------------------------------ MODULE MC_Fault ------------------------------
EXTENDS Fault, TLC
CONSTANTS MUT
VARIABLES op, i, failed, ret
vars == <<op, i, failed, ret>>
None == "none"
Init == op \in OpNames /\ i = 1 /\ failed = None /\ ret = None
Serve == /\ ret = None /\ i <= Len(Calls(op)) /\ i' = i + 1 /\ UNCHANGED <<op, failed, ret>>
Fail == /\ ret = None /\ failed = None /\ i <= Len(Calls(op))
        /\ LET comp == Calls(op)[i] IN
           \E r \in Reports(comp) :
             /\ failed' = r
             /\ LET u == Up(Layers(op, comp), r, MUT)
                IN IF u = "ok" THEN i' = i + 1 /\ ret' = None ELSE i' = i /\ ret' = u
        /\ UNCHANGED op
Return == ret = None /\ i > Len(Calls(op)) /\ ret' = "ok" /\ UNCHANGED <<op, i, failed>>
Next == Serve \/ Fail \/ Return
Spec == Init /\ [][Next]_vars
(* C12 *)
Surfaces == (ret # None /\ failed # None) => ret = Surface(failed)
Clean == (ret # None /\ failed = None) => ret = "ok"
=============================================================================
