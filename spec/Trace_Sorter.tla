---------------------------- MODULE Trace_Sorter ----------------------------
(* Recorded runs of sorters.  Keys are ranks, an insert is its number.         *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, total
vars == <<l, c, total>>
Init == l = 1 /\ c = <<>> /\ total = 0
(* evaluated as a value: TLC would unroll a quantifier of an action *)
Holds(p) == IF p THEN TRUE ELSE FALSE
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Begin == Is("begin") /\ c' = E /\ total' = 0
(* ---- C07: the output, however obtained ------------------------------------------ *)
Up(s) == \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1]
SetOf(s) == {s[j] : j \in DOMAIN s}
RECURSIVE SumLen(_, _)
SumLen(ss, j) == IF j = 0 THEN 0 ELSE Len(ss[j]) + SumLen(ss, j - 1)
(* an insert of an empty value leaves no mark in the merged value *)
OutOk(ks, is) ==
  /\ Up(ks) /\ Len(is) = Len(ks)
  /\ SetOf(ks) = SetOf(c.ks)
  /\ \A j \in DOMAIN is : /\ (IF c.stable THEN Up(is[j]) ELSE Cardinality(SetOf(is[j])) = Len(is[j]))
                          /\ \A x \in SetOf(is[j]) : x \in DOMAIN c.ks /\ c.ks[x] = ks[j]
  /\ SumLen(is, Len(is)) = Len(c.ks) - Len(c.empty)
Out == Is("out") /\ Holds(OutOk(E.ks, E.is)) /\ UNCHANGED <<c, total>>
(* ---- C08: inserts of small entries ----------------------------------------------- *)
Bound == IF c.realloc THEN 2 * c.B ELSE c.B
Chunks(live, ml) == live >= 0 /\ live <= ml /\ ml <= c.max + 2
Add == /\ Is("add") /\ E.ok /\ 4 * E.sz <= c.B
       /\ total' = total + E.sz /\ UNCHANGED c
       /\ E.stored <= total' /\ total' - E.stored <= Bound
       /\ Chunks(E.live, E.ml)
(* everything is in chunks of the user's, one cursor each *)
Finish == /\ Is("finish") /\ E.stored = total /\ Chunks(E.live, E.ml)
          /\ (E.by = "cursors" => E.cursors = E.live)
          /\ UNCHANGED <<c, total>>
(* nothing is left, and reading the output out created no more than allowed *)
Dropped == Is("dropped") /\ E.live = 0 /\ E.ml <= c.max + 2 /\ UNCHANGED <<c, total>>
End == Is("end") /\ UNCHANGED <<c, total>>
Next == Begin \/ Out \/ Add \/ Finish \/ Dropped \/ End
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ PrintT(<<"REJECTED AT LINE", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
