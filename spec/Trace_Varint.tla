---------------------------- MODULE Trace_Varint ----------------------------
(* The length codec of the code, as observed (C14).                            *)
EXTENDS Varint, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
(* evaluated as a value: TLC would unroll a quantifier of an action *)
Holds(p) == IF p THEN TRUE ELSE FALSE
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
(* all 2^32 lengths were encoded and decoded; `bad` of them did not come back *)
Sweep == Is("sweep") /\ E.bad = 0
(* encodings of L bytes: smallest and largest length, how many *)
ClassL == Is("class") /\ E.lo = ClassLo(E.L) /\ E.hi = ClassHi(E.L) /\ E.cnt = ClassCnt(E.L)
(* byte i (from 0) of every encoding of L bytes, as a function of digit i; a table  *)
(* entry is -1 when the digit cannot occur, -2 when two lengths disagree            *)
Occurs(L, i, x) == /\ (i = 4 => x < TOP)
                   /\ (i = L - 1 /\ L > 1 => x > 0)
Tab == /\ Is("tab")
       /\ Holds(\A x \in 0..(BASE - 1) : E.t[x + 1] = IF Occurs(E.L, E.i, x) THEN EncByte(E.L, E.i + 1, x) ELSE -1)
(* one length: its encoding, what decoding it (with other bytes behind) gave *)
EncL == Is("enc") /\ E.b = Enc(E.d) /\ E.dd = E.d /\ E.used = Len(Enc(E.d))
(* one entry, through a writer and a reader: the framing in the file, the lengths read *)
Entry == /\ Is("entry") /\ "got" \in DOMAIN E
         /\ E.fr = Enc(E.kl) \o Enc(E.vl)
         /\ E.got = <<E.kl, E.vl, E.kl, E.vl>>
         /\ E.same
End == Is("end")
Next == Sweep \/ ClassL \/ Tab \/ EncL \/ Entry \/ End
Spec == Init /\ [][Next]_l
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ PrintT(<<"REJECTED AT LINE", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
