----------------------------- MODULE Trace_Heap -----------------------------
(* Recorded allocations and releases, and outputs, of scenarios; an allocator   *)
(* that checks every release (and the memory around it) ends the run itself when  *)
(* it finds something wrong.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c
vars == <<l, c>>
Init == l = 1 /\ c = <<>>
(* evaluated as a value: TLC would unroll a quantifier of an action *)
Holds(p) == IF p THEN TRUE ELSE FALSE
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Begin == Is("begin") /\ c' = E
SetOf(s) == {s[j] : j \in DOMAIN s}
(* a: every allocation of the library's, <<size, alignment, time>>;                     *)
(* f: the releases of these, <<allocation, size, alignment, time>>                     *)
Heap == /\ Is("heap")
        /\ Holds(\A j \in DOMAIN E.a : E.a[j][1] > 0)
        /\ Holds(\A j \in DOMAIN E.f :
             LET x == E.f[j] IN /\ x[1] \in DOMAIN E.a
                                /\ x[2] = E.a[x[1]][1] /\ x[3] = E.a[x[1]][2]
                                /\ x[4] > E.a[x[1]][3])
        (* each is released, once *)
        /\ {E.f[j][1] : j \in DOMAIN E.f} = DOMAIN E.a
        /\ Len(E.f) = Len(E.a)
        /\ UNCHANGED c
Up(s) == \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1]
(* what was read back: c.ks: key of each insert, c.empty: those without a value *)
Out == /\ Is("out")
       /\ Holds(Up(E.ks)) /\ Len(E.is) = Len(E.ks) /\ SetOf(E.ks) = SetOf(c.ks)
       /\ Holds(\A j \in DOMAIN E.is : SetOf(E.is[j]) = {x \in DOMAIN c.ks : c.ks[x] = E.ks[j] /\ x \notin SetOf(c.empty)})
       /\ UNCHANGED c
(* results of a run over readers and mergers, as without the checking allocator's patterns *)
Same == Is("same") /\ E.r = E.x /\ UNCHANGED c
(* a buffer larger than the address space is refused *)
Huge == Is("huge") /\ ~E.overflow /\ UNCHANGED c
End == Is("end") /\ UNCHANGED c
Next == Begin \/ Heap \/ Out \/ Same \/ Huge \/ End
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ PrintT(<<"REJECTED AT LINE", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
