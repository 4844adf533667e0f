------------------------------- MODULE MC_Iter -------------------------------
(* Every iterator over the abstract cursor of Store, for every small content    *)
(* over a small alphabet: it lists what it should, in order, and stops.          *)
EXTENDS ByteStr, FiniteSets, TLC
CONSTANTS TOP,    \* the largest byte
          LEN,    \* longest key
          PLEN,   \* longest prefix
          MAXN,   \* largest number of keys
          KINDS, MUT
VARIABLES ks, it, out, done
vars == <<ks, it, out, done>>

Strs(n) == UNION {[1..m -> 0..TOP] : m \in 0..n}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ LessDef(x, y)
                  IN <<m>> \o Sorted(S \ {m})
Small == UNION {{S \in SUBSET Strs(LEN) : Cardinality(S) = n} : n \in 0..MAXN}

S == INSTANCE Store
After(r, c, ph) == S!After(c, r, ph)
(* the deterministic abstract cursor: relative moves are only made while positioned *)
R(c, r, ph) == [s |-> S!After(c, r, ph), r |-> r]
First(c) == R(c, IF Len(ks) > 0 THEN 1 ELSE 0, 0)
Last(c)  == R(c, Len(ks), 0)
Nxt(c) == IF c.st = "lost" THEN Assert(FALSE, "relative move after None") ELSE R(c, S!NextOf(ks, c), 0)
Prv(c) == IF c.st = "lost" THEN Assert(FALSE, "relative move after None") ELSE R(c, S!PrevOf(ks, c), c.phys)
Ge(c, q) == R(c, S!CeilFast(ks, q), c.phys)
Le(c, q) == R(c, S!FloorFast(ks, q), IF Len(ks) > 0 THEN 1 ELSE 0)
Cur(c) == IF c.st = "at" THEN c.i ELSE IF c.phys = -1 THEN Assert(FALSE, "current unknown") ELSE c.phys
Key(r) == ks[r]
I == INSTANCE Iter WITH CFirst <- First, CLast <- Last, CNext <- Nxt, CPrev <- Prv, CGe <- Ge, CLe <- Le,
                        CCur <- Cur, KeyOf <- Key

Unb == [t |-> "unb", k |-> <<>>]
Bounds == {Unb} \cup {[t |-> x, k |-> k] : x \in {"inc", "exc"}, k \in Strs(LEN)}
Fresh(kind, lo, hi, p) == [c |-> S!FreshCur, new |-> TRUE, kind |-> kind, lo |-> lo, hi |-> hi, p |-> p]
Iters == {Fresh(k, lo, hi, <<>>) : k \in KINDS \cap {"range", "revrange"}, lo \in Bounds, hi \in Bounds}
         \cup {Fresh(k, Unb, Unb, p) : k \in KINDS \cap {"prefix", "revprefix"}, p \in Strs(PLEN)}
Init == /\ ks \in {Sorted(x) : x \in Small} /\ it \in Iters /\ out = <<>> /\ done = FALSE
Next == /\ ~done
        /\ LET x == I!ItNext(it)
           IN /\ it' = x.s
              /\ IF x.r > 0 THEN out' = Append(out, x.r) /\ done' = FALSE ELSE out' = out /\ done' = TRUE
        /\ UNCHANGED ks
Spec == Init /\ [][Next]_vars

Range == it.kind \in {"range", "revrange"}
Want == IF Range THEN S!InRange(ks, it.lo, it.hi) ELSE S!InPrefix(ks, it.p)
Lists == done => IF it.kind \in {"range", "prefix"} THEN S!ListsUp(out, Want) ELSE S!ListsDown(out, Want)
Within == \A j \in DOMAIN out : out[j] \in Want
(* the definitions of order, seeks and prefix successors, against their fast forms *)
Defs == (it.new /\ it.kind \in {"prefix", "revprefix"}) =>
  LET q == it.p
  IN /\ S!CeilDef(ks, q, S!CeilFast(ks, q)) /\ S!IsCeil(ks, q, S!CeilFast(ks, q))
     /\ S!FloorDef(ks, q, S!FloorFast(ks, q)) /\ S!IsFloor(ks, q, S!FloorFast(ks, q))
     /\ S!MatchDef(ks, q, S!Match(ks, q))
     /\ \A r \in 0..Len(ks) : (S!IsCeil(ks, q, r) <=> S!CeilDef(ks, q, r)) /\ (S!IsFloor(ks, q, r) <=> S!FloorDef(ks, q, r))
     /\ \A j \in DOMAIN ks : /\ Less(q, ks[j]) <=> LessDef(q, ks[j])
                             /\ Less(ks[j], q) <=> LessDef(ks[j], q)
                             (* a key has the prefix iff it lies between it and its successor *)
                             /\ IsPre(q, ks[j]) <=> (Leq(q, ks[j]) /\ (Advance(q, TOP) # <<>> => Less(ks[j], Advance(q, TOP))))
=============================================================================
