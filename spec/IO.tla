--------------------------------- MODULE IO ---------------------------------
(* Moving bytes through a user's sink or source that serves a call partly or    *)
(* interrupts it.  The library moves a plan of transfers (write everything,      *)
(* read exactly, read to the bounded end); bytes are their positions 1..N.        *)
EXTENDS Integers, Sequences
RECURSIVE SumTo(_, _)
SumTo(plan, j) == IF j = 0 THEN 0 ELSE SumTo(plan, j - 1) + plan[j]
Total(plan) == SumTo(plan, Len(plan))
(* st: [t: the transfer, off: bytes of it already moved, moved: bytes that arrived,  *)
(*      count: the library's own count, offs: counts recorded after each transfer]    *)
IOInit == [t |-> 1, off |-> 0, moved |-> <<>>, count |-> 0, offs |-> <<>>]
IODone(plan, st) == st.t > Len(plan)
Rem(plan, st) == plan[st.t] - st.off
Base(plan, st) == SumTo(plan, st.t - 1)
Span(a, n) == [j \in 1..n |-> a + j]
EndTransfer(st) == [st EXCEPT !.t = @ + 1, !.off = 0, !.offs = Append(@, st.count)]
(* the environment serves n >= 1 bytes of those offered *)
Serve(plan, st, n, mut) ==
  LET s == [st EXCEPT !.moved = @ \o Span(Base(plan, st) + st.off, n),
                      !.off = @ + n,
                      !.count = @ + IF mut = "offered" THEN Rem(plan, st) ELSE n]
  IN IF s.off = plan[st.t] \/ mut = "single" THEN EndTransfer(s) ELSE s
(* the environment interrupts the call: it is issued again *)
Interrupt(plan, st, mut) ==
  CASE mut = "resend" -> [st EXCEPT !.off = 0]
    [] mut = "skip" -> EndTransfer(st)
    [] OTHER -> st
(* empty transfers move nothing and take no call *)
RECURSIVE SkipEmpty(_, _)
SkipEmpty(plan, st) == IF st.t <= Len(plan) /\ plan[st.t] = 0 THEN SkipEmpty(plan, EndTransfer(st)) ELSE st
(* schedule choices are relative to what is offered: 0 interrupted, 1 one byte, 2 half, 3 all *)
Amount(choice, rem) == CASE choice = 1 -> 1 [] choice = 2 -> (rem + 1) \div 2 [] OTHER -> rem
=============================================================================
