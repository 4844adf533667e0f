----------------------------- MODULE MC_IterTree -----------------------------
(* The range iterators over the cursor as built (blocks, levels, cached index   *)
(* blocks), for every small tree and every pair of bounds.                       *)
EXTENDS Cursor, TLC
CONSTANTS SIZES, WIDTH, LEVELS, FANS, KINDS, MUT
VARIABLES t, tb, kt, it, out, done
vars == <<t, tb, kt, it, out, done>>
Trees == {[sizes |-> s, fan |-> f, levels |-> lv] :
             s \in UNION {[1..n -> 1..WIDTH] : n \in 0..SIZES}, f \in FANS, lv \in LEVELS}
lv == t.levels
N == NEntries(t)
S == INSTANCE Store
OFirst(c) == First(tb, kt, lv, c)
OLast(c) == Last(tb, kt, lv, c)
ONext(c) == Next_(tb, kt, lv, c)
OPrev(c) == Prev_(tb, kt, lv, c)
OGe(c, q) == Ge(tb, kt, lv, c, q[1])
OLe(c, q) == Le(tb, kt, lv, c, q[1])
OCur(c) == Ent(tb, c)
Key(r) == <<2 * r>>
I == INSTANCE Iter WITH CFirst <- OFirst, CLast <- OLast, CNext <- ONext, CPrev <- OPrev, CGe <- OGe, CLe <- OLe,
                        CCur <- OCur, KeyOf <- Key, TOP <- 255
Unb == [t |-> "unb", k |-> <<>>]
Bounds == {Unb} \cup {[t |-> x, k |-> <<q>>] : x \in {"inc", "exc"}, q \in 1..(2 * N + 1)}
Init == /\ t \in Trees /\ tb = Table(t) /\ kt = KidTable(t)
        /\ it \in {[c |-> FreshState, new |-> TRUE, kind |-> k, lo |-> lo, hi |-> hi, p |-> <<>>] : k \in KINDS, lo \in Bounds, hi \in Bounds}
        /\ out = <<>> /\ done = FALSE
Next == /\ ~done
        /\ LET x == I!ItNext(it)
           IN /\ it' = x.s
              /\ IF x.r > 0 THEN out' = Append(out, x.r) /\ done' = FALSE ELSE out' = out /\ done' = TRUE
        /\ UNCHANGED <<t, tb, kt>>
Spec == Init /\ [][Next]_vars
Want == {r \in 1..N : S!AboveLo(it.lo, Key(r)) /\ S!BelowHi(it.hi, Key(r))}
Lists == done => IF it.kind = "range" THEN S!ListsUp(out, Want) ELSE S!ListsDown(out, Want)
Within == \A j \in DOMAIN out : out[j] \in Want
=============================================================================
