------------------------------ MODULE Trace_IO ------------------------------
(* Recorded runs of the same calls under different schedules.                   *)
EXTENDS Integers, Sequences, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, pos, ref
vars == <<l, c, pos, ref>>
Init == l = 1 /\ c = <<>> /\ pos = 0 /\ ref = <<>>
(* evaluated as a value: TLC would unroll a quantifier of an action *)
Holds(p) == IF p THEN TRUE ELSE FALSE
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Begin == Is("begin") /\ c' = E /\ pos' = 0 /\ ref' = <<>>
(* the bytes of the stream, and its results, under the schedule that serves everything in full *)
Ref == Is("ref") /\ E.ok /\ ref' = E.b /\ pos' = 0 /\ UNCHANGED c
Start == Is("start") /\ pos' = 0 /\ UNCHANGED <<c, ref>>
(* what the sink accepted during one call of the library's *)
Wr == /\ Is("w") /\ E.ok
      /\ pos + Len(E.b) <= Len(ref)
      /\ Holds(\A j \in DOMAIN E.b : E.b[j] = ref[pos + j])
      /\ pos' = pos + Len(E.b) /\ UNCHANGED <<c, ref>>
Done == Is("done") /\ pos = Len(ref) /\ UNCHANGED <<c, pos, ref>>
(* results, and digests and lengths of larger streams: the first is the reference *)
Res == /\ Is("res") /\ ref' = E.r /\ UNCHANGED <<c, pos>>
Again == /\ Is("again") /\ E.r = ref /\ UNCHANGED <<c, pos, ref>>
End == Is("end") /\ UNCHANGED <<c, pos, ref>>
Next == Begin \/ Ref \/ Start \/ Wr \/ Done \/ Res \/ Again \/ End
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ PrintT(<<"REJECTED AT LINE", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
