------------------------------ MODULE MC_Cursor ------------------------------
(* The concrete cursor against the abstract one of Store, over every history *)
(* of operations, for every tree of a set; each operation's block loads are   *)
(* counted (C16).  With EMIT, the shortest history to every concrete state is *)
(* printed: the harness replays it on a file of that very tree and then tries  *)
(* every operation there.                                                      *)
EXTENDS Cursor, Store, TLC, Json
CONSTANTS SIZES,   \* largest number of data blocks
          WIDTH,   \* largest number of entries of a data block
          LEVELS, FANS, EMIT,
          FAULTS     \* any load of any operation may fail

Trees == {[sizes |-> s, fan |-> f, levels |-> lv] :
             s \in UNION {[1..n -> 1..WIDTH] : n \in 0..SIZES}, f \in FANS, lv \in LEVELS}
VARIABLES t, tb, kt, ks, s, a, ret, ld, hist
vars == <<t, tb, kt, ks, s, a, ret, ld, hist>>
N == Len(ks)

Init == /\ t \in Trees /\ tb = Table(t) /\ kt = KidTable(t) /\ ks = [i \in 1..NEntries(t) |-> <<2 * i>>]
        /\ s = FreshState /\ a = FreshCur /\ ret = <<"ok", TRUE>> /\ ld = 0 /\ hist = <<>>

(* run the concrete operation, hold its result against the abstract step *)
Do(name, x, ok, a2) ==
  /\ s' = x.s /\ ld' = x.ld
  /\ ret' = <<name, ok>>
  /\ a' = a2
  /\ hist' = IF EMIT THEN Append(hist, name) ELSE hist
  /\ UNCHANGED <<t, tb, kt, ks>>
lv == t.levels

MFirst == LET x == First(tb, kt, lv, s) IN Do("first", x, FirstStep(ks, a, x.r, After(a, x.r, 0)), After(a, x.r, 0))
MLast  == LET x == Last(tb, kt, lv, s)  IN Do("last", x, LastStep(ks, a, x.r, After(a, x.r, 0)), After(a, x.r, 0))
RelA(r, ph) == IF a.st = "lost" THEN [a EXCEPT !.last = IF r > 0 THEN r ELSE @, !.phys = IF r > 0 THEN r ELSE -1]
               ELSE After(a, r, ph)
MNext  == LET x == Next_(tb, kt, lv, s) IN Do("next", x, NextStep(ks, a, x.r, RelA(x.r, 0)), RelA(x.r, 0))
MPrev  == LET x == Prev_(tb, kt, lv, s) IN Do("prev", x, PrevStep(ks, a, x.r, RelA(x.r, a.phys)), RelA(x.r, a.phys))
MReset == Do("reset", [s |-> FreshState, r |-> 0, ld |-> 0], TRUE, FreshCur)
MGe == \E q \in 1..(2 * N + 1) : LET x == Ge(tb, kt, lv, s, q) IN
          Do("ge" \o ToString(q), x, GeStep(ks, a, <<q>>, x.r, After(a, x.r, a.phys)), After(a, x.r, a.phys))
MLe == \E q \in 1..(2 * N + 1) : LET x == Le(tb, kt, lv, s, q)
                                     ph == IF N > 0 THEN 1 ELSE 0 IN
          Do("le" \o ToString(q), x, LeStep(ks, a, <<q>>, x.r, After(a, x.r, ph)), After(a, x.r, ph))
MEq == \E q \in 1..(2 * N + 1) : LET x == Eq(tb, kt, lv, s, q)
                                     e == CeilFast(ks, <<q>>)
                                     ph == IF e > 0 THEN e ELSE a.phys IN
          Do("eq" \o ToString(q), x, EqStep(ks, a, <<q>>, x.r, After(a, x.r, ph)), After(a, x.r, ph))
(* An operation fails with a load: where relative moves go from there is not said, *)
(* first, last and the seeks are unaffected.                                       *)
MFail == /\ FAULTS
         /\ \E fl \in 1..(2 * (lv + 2)) :
              \E x \in {FirstF(tb, kt, lv, s, fl), LastF(tb, kt, lv, s, fl), RelF(tb, kt, lv, s, "next", fl), RelF(tb, kt, lv, s, "prev", fl)}
                      \cup {GeF(tb, kt, lv, s, q, fl) : q \in 1..(2 * N + 1)}
                      \cup {LeF(tb, kt, lv, s, q, fl) : q \in 1..(2 * N + 1)} :
                x.er /\ Do("fail", x, TRUE, LostCur(a, -1))
Next == MFail \/ MFirst \/ MLast \/ MNext \/ MPrev \/ MReset \/ MGe \/ MLe \/ MEq
Spec == Init /\ [][Next]_vars

(* C02, C03: every result is the abstract one *)
Refines == ret[2]
(* `current` is the last returned entry whenever the last operation returned one *)
CurrentOk == a.st # "lost" => CurrentStrict(a, Ent(tb, s))
(* the recorded deviation is exactly this one *)
CurrentKnown == \/ CurrentStrict(a, Ent(tb, s)) \/ CurrentDeviates(a, Ent(tb, s))
(* C16 *)
Bounded == ld <= 2 * (t.levels + 2)
(* the invariant behind C03: on every level the recorded offset is that of the *)
(* loaded block, or of a block on another level (never wrongly believed)        *)
Believed == \A i \in DOMAIN s.in : s.in[i].off = s.in[i].blk \/ s.in[i].off[1] # s.in[i].blk[1]
View == IF EMIT THEN <<t, s, a.st>> ELSE <<t, s, a, ret, ld>>
Emit == EMIT => PrintT(ToJson([sizes |-> t.sizes, fan |-> t.fan, levels |-> t.levels, path |-> hist]))
=============================================================================
