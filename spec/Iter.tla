-------------------------------- MODULE Iter --------------------------------
(* The range and prefix iterators: a first positioning, then relative moves,   *)
(* an entry outside the bounds ending the iteration.  They are written over    *)
(* the operations of a cursor: CFirst, CLast, CNext, CPrev, CGe, CLe take a     *)
(* cursor state and give [s, r], CCur the entry `current` reports; KeyOf(r) is  *)
(* the key of entry r.                                                          *)
EXTENDS Store
CONSTANTS CFirst(_), CLast(_), CNext(_), CPrev(_), CGe(_, _), CLe(_, _), CCur(_), KeyOf(_), TOP,
          MUT   \* "none" or the name of a mistake

(* an iterator: [c: cursor, new: still to be positioned, kind, lo, hi, p] *)
Positioned(it, x) == [s |-> [it EXCEPT !.c = x.s, !.new = FALSE], r |-> x.r]

StartFwd(it) ==
  CASE it.lo.t = "unb" -> CFirst(it.c)
    [] it.lo.t = "inc" -> CGe(it.c, it.lo.k)
    [] it.lo.t = "exc" -> LET x == CGe(it.c, it.lo.k)
                          IN IF x.r > 0 /\ KeyOf(x.r) = it.lo.k /\ MUT # "stay" THEN CNext(x.s) ELSE x
StartRev(it) ==
  CASE it.hi.t = "unb" -> CLast(it.c)
    [] it.hi.t = "inc" -> CLe(it.c, it.hi.k)
    [] it.hi.t = "exc" -> LET x == CLe(it.c, it.hi.k)
                          IN IF x.r > 0 /\ KeyOf(x.r) = it.hi.k THEN CPrev(x.s) ELSE x
(* the last entry with a prefix: what lies at or below the prefix' successor *)
Succ(p) == IF MUT = "carry" THEN (IF p = <<>> \/ p[Len(p)] = TOP THEN <<>> ELSE Advance(p, TOP)) ELSE Advance(p, TOP)
StartRevPrefix(it) ==
  LET np == Succ(it.p)
  IN IF np = <<>> THEN CLast(it.c)
     ELSE LET x == CLe(it.c, np)
          IN IF x.r > 0 /\ KeyOf(x.r) = np /\ MUT # "here" THEN CPrev(x.s)
             (* whatever `current` says, None included *)
             ELSE [s |-> x.s, r |-> CCur(x.s)]
Start(it) == CASE it.kind = "range" -> StartFwd(it)
               [] it.kind = "revrange" -> StartRev(it)
               [] it.kind = "prefix" -> CGe(it.c, it.p)
               [] it.kind = "revprefix" -> StartRevPrefix(it)
Step(it) == IF it.kind \in {"range", "prefix"} THEN CNext(it.c) ELSE CPrev(it.c)
Inside(it, r) == CASE it.kind = "range" -> (IF MUT = "closed" /\ it.hi.t = "exc" THEN Leq(KeyOf(r), it.hi.k) ELSE BelowHi(it.hi, KeyOf(r)))
                   [] it.kind = "revrange" -> AboveLo(it.lo, KeyOf(r))
                   [] OTHER -> IsPre(it.p, KeyOf(r))
ItNext(it) ==
  LET x == Positioned(it, IF it.new THEN Start(it) ELSE Step(it))
  IN IF x.r > 0 /\ Inside(it, x.r) THEN x ELSE [x EXCEPT !.r = 0]
=============================================================================
