---------------------------- MODULE Trace_Store ----------------------------
(* Accepts a recorded execution of readers, cursors and iterators exactly   *)
(* when it is a behaviour of Store.  One trace line = one action.           *)
EXTENDS Store, Json, TLC, IOUtils

CONSTANTS KNOWN,   \* ids of recorded findings
          COST     \* TRUE: also bound the block loads of every operation (C16)
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, ks, cs, lv, kf,
          alt      \* per cursor: where it may have stood before its last operations returned None
vars == <<l, ks, cs, lv, kf, alt>>

Init == l = 1 /\ ks = <<>> /\ cs = <<>> /\ lv = 0 /\ kf = {} /\ alt = <<>>

(* evaluated as a value: TLC would unroll a quantifier of an action *)
Holds(p) == IF p THEN TRUE ELSE FALSE
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Keep == UNCHANGED <<ks, lv, kf>>
Put(f, c, d) == [x \in (DOMAIN f) \cup {c} |-> IF x = c THEN d ELSE f[x]]
Set(c, d) == /\ cs' = Put(cs, c, d)
             /\ alt' = Put(alt, c, IF d.st = "lost" /\ c \in DOMAIN cs /\ cs[c].st # "fresh"
                                   THEN alt[c] \cup {cs[c].phys} ELSE {})
C == cs[E.c]
(* C16: an operation loads at most 2 x (index levels + 2) blocks *)
Cheap == COST => E.ld <= 2 * (lv + 2)

(* A new scenario: the writer was given these keys, in this order. *)
Begin == /\ Is("begin") /\ Assert(Ascending(E.ks), "scenario keys not ascending")
         /\ ks' = E.ks /\ lv' = E.lv /\ cs' = <<>> /\ kf' = kf /\ alt' = <<>>
(* Opening: version, count and codec are those of the writer; only the      *)
(* trailer is read.                                                         *)
Open == /\ Is("open") /\ E.r = 0 /\ E.len = Len(ks) /\ E.empty = (Len(ks) = 0)
        /\ E.codec = E.wcodec /\ E.ver = E.wver
        /\ (COST => E.tronly /\ E.ld = 0)
        /\ Keep /\ UNCHANGED <<cs, alt>>
Fresh == Is("fresh") /\ E.r = 0 /\ Cheap /\ Set(E.c, FreshCur) /\ Keep
Clone == Is("clone") /\ cs' = Put(cs, E.d, C) /\ alt' = Put(alt, E.d, alt[E.c]) /\ Keep
Reset == Is("reset") /\ Set(E.c, FreshCur) /\ Keep
First == Is("first") /\ Cheap /\ (\E d \in {After(C, E.r, 0)} : FirstStep(ks, C, E.r, d) /\ Set(E.c, d)) /\ Keep
Last  == Is("last")  /\ Cheap /\ (\E d \in {After(C, E.r, 0)} : LastStep(ks, C, E.r, d) /\ Set(E.c, d)) /\ Keep
Rel(c, r, ph) == IF c.st = "lost"
                 THEN [c EXCEPT !.last = IF r > 0 THEN r ELSE @, !.phys = IF r > 0 THEN r ELSE -1]
                 ELSE After(c, r, ph)
Next_ == Is("next") /\ Cheap /\ (\E d \in {Rel(C, E.r, 0)} : NextStep(ks, C, E.r, d) /\ Set(E.c, d)) /\ Keep
Prev_ == Is("prev") /\ Cheap /\ (\E d \in {Rel(C, E.r, C.phys)} : PrevStep(ks, C, E.r, d) /\ Set(E.c, d)) /\ Keep
Ge == Is("ge") /\ Cheap /\ (\E d \in {After(C, E.r, C.phys)} : GeStep(ks, C, E.q, E.r, d) /\ Set(E.c, d)) /\ Keep
Le == Is("le") /\ Cheap
      /\ (\E d \in {After(C, E.r, IF Len(ks) > 0 THEN 1 ELSE 0)} : LeStep(ks, C, E.q, E.r, d) /\ Set(E.c, d)) /\ Keep
Eq == Is("eq") /\ Cheap
      /\ (\E d \in {After(C, E.r, LET e == CeilFast(ks, E.q) IN IF e > 0 THEN e ELSE C.phys)} :
             EqStep(ks, C, E.q, E.r, d) /\ Set(E.c, d)) /\ Keep
(* the source failed the operation: see MC_Cursor!MFail *)
Err == Is("err") /\ E.r = -2 /\ Set(E.c, LostCur(C, -1)) /\ Keep
(* A seek that found nothing may also have left the cursor where it stood before. *)
Deviates == \/ CurrentDeviates(C, E.r)
            \/ C.st = "lost" /\ E.r \in 0..Len(ks) /\ (E.r \in alt[E.c] \/ -1 \in alt[E.c])
Cur == /\ Is("cur") /\ UNCHANGED <<ks, lv, cs, alt>>
       /\ \/ CurrentStrict(C, E.r) /\ kf' = kf
          \/ /\ ~CurrentStrict(C, E.r) /\ Deviates /\ "C03-CURRENT" \in KNOWN
             /\ kf' = kf \cup {"C03-CURRENT"}
             /\ ("C03-CURRENT" \in kf \/ PrintT("KNOWN C03-CURRENT"))
(* Scans: next (prev) from fresh until the first None. *)
Scan == /\ Is("scan") /\ Keep /\ UNCHANGED <<cs, alt>>
        /\ E.rs = [i \in 1..Len(ks) |-> IF E.rev THEN Len(ks) + 1 - i ELSE i]
Range == /\ Is("range") /\ Keep /\ UNCHANGED <<cs, alt>>
         /\ Holds(LET S == InRange(ks, E.lo, E.hi) IN IF E.rev THEN ListsDown(E.rs, S) ELSE ListsUp(E.rs, S))
Prefix == /\ Is("prefix") /\ Keep /\ UNCHANGED <<cs, alt>>
          /\ Holds(LET S == InPrefix(ks, E.p) IN IF E.rev THEN ListsDown(E.rs, S) ELSE ListsUp(E.rs, S))
End == Is("end") /\ Keep /\ UNCHANGED <<cs, alt>>

Next == \/ Begin \/ Open \/ Fresh \/ Clone \/ Reset \/ First \/ Last \/ Next_ \/ Prev_
        \/ Ge \/ Le \/ Eq \/ Err \/ Cur \/ Scan \/ Range \/ Prefix \/ End
Spec == Init /\ [][Next]_vars

(* Accepted iff some behaviour consumed every line. *)
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ PrintT(<<"REJECTED AT LINE", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
