---------------------------- MODULE Trace_Fault -----------------------------
(* Recorded runs in which the k-th component call (or every call from the k-th) *)
(* failed: one line per run, every public call of it that a failure fell into    *)
(* or that did not return a success.                                             *)
EXTENDS Fault, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>
Init == l = 1
(* evaluated as a value: TLC would unroll a quantifier of an action *)
Holds(p) == IF p THEN TRUE ELSE FALSE
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
(* a failure fell into the call: it returns that failure *)
CallOk(x) == /\ x.ret = "err"
             /\ x.report \in Reports(x.comp)
             /\ x.cls = Surface(x.report)
             /\ x.kind = x.got
             /\ x.tag
Run == /\ Is("run")
       (* no call before the failure reports an error *)
       /\ (E.calls # <<>> => E.calls[1].f)
       /\ (E.k < 0 => E.calls = <<>>)
       /\ Holds(\A j \in DOMAIN E.calls : E.calls[j].f => CallOk(E.calls[j]))
       (* the k-th call was made, by a deterministic run *)
       /\ (E.k >= 0 => E.calls # <<>>)
Begin == Is("begin")
End == Is("end")
Next == Begin \/ Run \/ End
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ PrintT(<<"REJECTED AT LINE", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
