---------------------------- MODULE Trace_Merger ----------------------------
(* Recorded runs of mergers (C06): the calls received by the merge function and *)
(* what the merger yields or writes.                                             *)
EXTENDS Merger, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, srcs, pos, ms
vars == <<l, srcs, pos, ms>>
Init == l = 1 /\ srcs = <<>> /\ pos = <<>> /\ ms = <<>>
(* evaluated as a value: TLC would unroll a quantifier of an action *)
Holds(p) == IF p THEN TRUE ELSE FALSE
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Zero(s) == [i \in DOMAIN s |-> 0]
Begin == /\ Is("begin")
         /\ srcs' = [s \in DOMAIN E.sk |-> [ks |-> E.sk[s], vs |-> E.sv[s]]]
         /\ pos' = Zero(E.sk) /\ ms' = <<>>
(* a second merge of the same sources *)
Again == Is("again") /\ pos' = Zero(srcs) /\ ms' = <<>> /\ UNCHANGED srcs
(* a call of the merge function: k, values in order, the value it returned *)
M == /\ Is("m") /\ E.k \notin DOMAIN ms
     /\ E.k >= 1 /\ E.vs = Values(srcs, E.k)
     /\ ms' = [x \in (DOMAIN ms) \cup {E.k} |-> IF x = E.k THEN E.r ELSE ms[x]]
     /\ UNCHANGED <<srcs, pos>>
(* the value the merger must give for k: the merge of its values, once *)
ValueOk(k, H, v) == IF Cardinality(H) = 1 THEN v = HeadsFrom(srcs, pos, H, 1)[1]
                    ELSE k \in DOMAIN ms /\ v = ms[k]
N == /\ Is("n") /\ UNCHANGED <<srcs, ms>>
     /\ \/ /\ E.r = 1 /\ Alive(srcs, pos) # {}
           /\ LET k == NextKey(srcs, pos) H == HoldersAt(srcs, pos, k)
              IN E.k = k /\ ValueOk(k, H, E.v) /\ pos' = Advance(pos, H)
        \/ E.r = 0 /\ Alive(srcs, pos) = {} /\ pos' = pos
(* what was written: keys and values of the whole file *)
RECURSIVE FileFrom(_, _, _, _)
FileFrom(ks, vs, i, p) ==
  IF Alive(srcs, p) = {} THEN i = Len(ks) + 1
  ELSE /\ i <= Len(ks)
       /\ LET k == NextKey(srcs, p) H == HoldersAt(srcs, p, k)
          IN /\ ks[i] = k
             /\ IF Cardinality(H) = 1 THEN vs[i] = HeadsFrom(srcs, p, H, 1)[1] ELSE k \in DOMAIN ms /\ vs[i] = ms[k]
             /\ FileFrom(ks, vs, i + 1, Advance(p, H))
File == /\ Is("file") /\ UNCHANGED <<srcs, pos, ms>>
        /\ Holds(FileFrom(E.ks, E.vs, 1, Zero(srcs))) /\ E.count = Len(E.ks)
End == Is("end") /\ UNCHANGED <<srcs, pos, ms>>
Next == Begin \/ Again \/ M \/ N \/ File \/ End
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ PrintT(<<"REJECTED AT LINE", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
