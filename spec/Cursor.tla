------------------------------- MODULE Cursor -------------------------------
(* The reader cursor as built: one cached block cursor per index level, each *)
(* with the offset it is believed to come from, plus the loaded data block.  *)
(* A tree is a record [sizes, fan, levels]: data blocks of the given numbers *)
(* of entries, index blocks of `fan` children each on levels 2..levels, one  *)
(* block on levels 0 and 1 (the writer never cuts the level below the root). *)
(* Entry e (from 1) has key 2e; probes are 1..2N+1.                          *)
EXTENDS Block, FiniteSets

CONSTANTS RECORD,    \* the recorded offset is kept in sync by relative moves
          EARLY      \* (mutant) the offset is recorded before the block is loaded
(* Loads may fail: `fl` numbers the load of the operation that does (0: none), *)
(* and a result with `er` is the state the failing operation leaves behind.     *)

NoBlk == <<-1, 0>>

RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
RECURSIVE DivUp(_, _)
DivUp(a, b) == (a + b - 1) \div b

NEntries(t) == SumTo(t.sizes, Len(t.sizes))
(* number of blocks on level l (0 = root, levels+1 = data) *)
RECURSIVE NBlk(_, _)
NBlk(t, l) == IF l = t.levels + 1 THEN Len(t.sizes)
              ELSE IF l <= 1 \/ Len(t.sizes) = 0 THEN 1
              ELSE DivUp(NBlk(t, l + 1), t.fan)
(* children of block i on index level l: block numbers on level l+1 *)
Kids(t, l, i) == IF Len(t.sizes) = 0 THEN <<>>
                 ELSE LET n == NBlk(t, l + 1)
                          w == IF l <= 1 THEN n ELSE t.fan
                          a == (i - 1) * w
                          b == IF a + w > n THEN n ELSE a + w
                      IN [j \in 1..(b - a) |-> a + j]
(* the keys of the block: its entries, or the last key of every child *)
RECURSIVE LastKey(_, _, _)
LastKey(t, l, i) == IF l = t.levels + 1 THEN 2 * SumTo(t.sizes, i)
                    ELSE LET k == Kids(t, l, i) IN LastKey(t, l + 1, k[Len(k)])
Keys(t, l, i) ==
  IF l = t.levels + 1 THEN [j \in 1..t.sizes[i] |-> 2 * (SumTo(t.sizes, i - 1) + j)]
  ELSE LET k == Kids(t, l, i) IN [j \in 1..Len(k) |-> LastKey(t, l + 1, k[j])]

(* All blocks of a tree, tabulated: tab[l+1][i] is the key sequence. *)
Table(t) == [l \in 1..(t.levels + 2) |-> [i \in 1..NBlk(t, l - 1) |-> Keys(t, l - 1, i)]]
KidTable(t) == [l \in 1..(t.levels + 1) |-> [i \in 1..NBlk(t, l - 1) |-> Kids(t, l - 1, i)]]

(* mv: [m |-> "first" | "last" | "next" | "prev" | "ge", q |-> probe] *)
MvPos(b, p, mv) == CASE mv.m = "first" -> BFirst(b)
                     [] mv.m = "last"  -> BLast(b, p)
                     [] mv.m = "next"  -> BNext(b, p)
                     [] mv.m = "prev"  -> BPrev(b, p)
                     [] mv.m = "ge"    -> BGe(b, mv.q)
MvRet(b, p, mv) == IF mv.m = "prev" THEN BPrevRet(b, p)
                   ELSE IF mv.m = "next" /\ p > Len(b) THEN 0
                   ELSE BRet(b, MvPos(b, p, mv))

(* State of the index cursor: <<>> = not loaded, otherwise one record per    *)
(* level: off = recorded block, blk = loaded block, pos.  Blocks are <<l,i>>. *)
Child(kt, blk, pos) == <<blk[1] + 1, kt[blk[1] + 1][blk[2]][pos]>>
B(tb, blk) == tb[blk[1] + 1][blk[2]]

(* initial load: every level is loaded and the move applied to it; the child's *)
(* offset is recorded instead of the block's own                               *)
RECURSIVE Initial(_, _, _, _, _, _, _, _)
Initial(tb, kt, lv, l, blk, mv, acc, fl) ==
  IF l > lv THEN [in |-> acc, ok |-> TRUE, ld |-> 0, er |-> FALSE]
  ELSE IF fl = 1 THEN [in |-> <<>>, ok |-> FALSE, ld |-> 1, er |-> TRUE]
  ELSE LET b == B(tb, blk)
           r == MvRet(b, 0, mv)
           p == MvPos(b, 0, mv)
       IN IF r = 0 THEN [in |-> <<>>, ok |-> FALSE, ld |-> 1, er |-> FALSE]
          ELSE LET c == Child(kt, blk, r)
                   rest == Initial(tb, kt, lv, l + 1, c, mv,
                                   Append(acc, [off |-> c, blk |-> blk, pos |-> p]), fl - 1)
               IN [rest EXCEPT !.ld = @ + 1]

(* absolute move with the levels loaded *)
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(tb, kt, in, l, want, mv, fl) ==
  IF l > Len(in) THEN [in |-> in, ok |-> TRUE, ld |-> 0, er |-> FALSE]
  ELSE IF in[l].off # want /\ fl = 1
  THEN [in |-> IF EARLY THEN [in EXCEPT ![l].off = want] ELSE in, ok |-> FALSE, ld |-> 1, er |-> TRUE]
  ELSE LET re == in[l].off # want
           blk == IF re THEN want ELSE in[l].blk
           p0 == IF re THEN 0 ELSE in[l].pos
           b == B(tb, blk)
           r == MvRet(b, p0, mv)
           in2 == [in EXCEPT ![l] = [off |-> IF re THEN want ELSE @.off, blk |-> blk, pos |-> MvPos(b, p0, mv)]]
       IN IF r = 0 THEN [in |-> in2, ok |-> FALSE, ld |-> IF re THEN 1 ELSE 0, er |-> FALSE]
          ELSE LET rest == Walk(tb, kt, in2, l + 1, Child(kt, blk, r), mv, IF re THEN fl - 1 ELSE fl)
               IN [rest EXCEPT !.ld = @ + (IF re THEN 1 ELSE 0)]

(* relative move: try level l, otherwise ask the parent and reload *)
RECURSIVE Rec(_, _, _, _, _, _)
Rec(tb, kt, in, l, mv, fl) ==
  IF l = 0 THEN [in |-> in, r |-> 0, ld |-> 0, er |-> FALSE]
  ELSE LET b == B(tb, in[l].blk)
           r == MvRet(b, in[l].pos, mv)
           in1 == [in EXCEPT ![l].pos = MvPos(b, @, mv)]
       IN IF r # 0 THEN [in |-> in1, r |-> r, ld |-> 0, er |-> FALSE]
          ELSE LET up == Rec(tb, kt, in1, l - 1, mv, fl)
               IN IF up.r = 0 \/ up.er THEN up
                  ELSE IF fl - up.ld = 1
                  THEN [in |-> IF EARLY THEN [up.in EXCEPT ![l].off = Child(kt, up.in[l-1].blk, up.r)] ELSE up.in,
                        r |-> 0, ld |-> up.ld + 1, er |-> TRUE]
                  ELSE LET want == Child(kt, up.in[l-1].blk, up.r)
                           b2 == B(tb, want)
                           r2 == MvRet(b2, 0, mv)
                           in2 == [up.in EXCEPT ![l] = [off |-> IF RECORD THEN want ELSE @.off,
                                                        blk |-> want, pos |-> MvPos(b2, 0, mv)]]
                       IN [in |-> in2, r |-> r2, ld |-> up.ld + 1, er |-> FALSE]

(* The index cursor: returns the data block to load, NoBlk if none. *)
IdxAbs(tb, kt, lv, in, mv, fl) ==
  LET w == IF in = <<>> THEN Initial(tb, kt, lv, 0, <<0, 1>>, mv, <<>>, fl)
                        ELSE Walk(tb, kt, in, 1, <<0, 1>>, mv, fl)
      last == w.in[Len(w.in)]
      cur == IF w.ok THEN BRet(B(tb, last.blk), last.pos) ELSE 0
  IN [in |-> w.in, d |-> IF cur = 0 THEN NoBlk ELSE Child(kt, last.blk, cur), ld |-> w.ld, er |-> w.er]
IdxRel(tb, kt, lv, in, mv, fl) ==
  LET i0 == IF in = <<>> THEN Initial(tb, kt, lv, 0, <<0, 1>>, mv, <<>>, fl)
                         ELSE [in |-> in, ok |-> TRUE, ld |-> 0, er |-> FALSE]
  IN IF i0.in = <<>> THEN [in |-> <<>>, d |-> NoBlk, ld |-> i0.ld, er |-> i0.er]
     ELSE LET w == Rec(tb, kt, i0.in, Len(i0.in), mv, fl - i0.ld)
          IN [in |-> w.in,
              d |-> IF w.r = 0 THEN NoBlk ELSE Child(kt, w.in[Len(w.in)].blk, w.r),
              ld |-> w.ld + i0.ld, er |-> w.er]

(* The reader cursor: [in |-> index cursor, cur |-> NoCur or [blk, pos]] *)
NoCur == [blk |-> NoBlk, pos |-> 0]
FreshState == [in |-> <<>>, cur |-> NoCur]
Ent(tb, s) == \* the entry number `current` reports
  IF s.cur = NoCur THEN 0
  ELSE LET b == B(tb, s.cur.blk)
       IN IF BRet(b, s.cur.pos) = 0 THEN 0 ELSE b[s.cur.pos] \div 2
Res(tb, s, ret, ld) == [s |-> s, r |-> ret, ld |-> ld, er |-> FALSE]
ErrRes(s, ld) == [s |-> s, r |-> 0, ld |-> ld, er |-> TRUE]

AbsMove(tb, kt, lv, s, mv, dropcur, fl) ==
  LET x == IdxAbs(tb, kt, lv, s.in, mv, fl)
  IN IF x.er THEN ErrRes([s EXCEPT !.in = x.in], x.ld)
     ELSE IF x.d = NoBlk
     THEN Res(tb, [in |-> x.in, cur |-> IF dropcur THEN NoCur ELSE s.cur], 0, x.ld)
     ELSE IF fl - x.ld = 1 THEN ErrRes([s EXCEPT !.in = x.in], x.ld + 1)
     ELSE LET b == B(tb, x.d)
              c == [blk |-> x.d, pos |-> MvPos(b, 0, mv)]
              s2 == [in |-> x.in, cur |-> c]
          IN Res(tb, s2, Ent(tb, s2), x.ld + 1)
FirstF(tb, kt, lv, s, fl) == AbsMove(tb, kt, lv, s, [m |-> "first", q |-> 0], TRUE, fl)
LastF(tb, kt, lv, s, fl)  == AbsMove(tb, kt, lv, s, [m |-> "last", q |-> 0], TRUE, fl)
GeF(tb, kt, lv, s, q, fl) == AbsMove(tb, kt, lv, s, [m |-> "ge", q |-> q], FALSE, fl)

RelF(tb, kt, lv, s, m, fl) ==
  IF s.cur = NoCur THEN IF m = "next" THEN FirstF(tb, kt, lv, s, fl) ELSE LastF(tb, kt, lv, s, fl)
  ELSE LET mv == [m |-> m, q |-> 0]
           b == B(tb, s.cur.blk)
           r == MvRet(b, s.cur.pos, mv)
           c == [s.cur EXCEPT !.pos = MvPos(b, @, mv)]
       IN IF r # 0 THEN Res(tb, [s EXCEPT !.cur = c], b[r] \div 2, 0)
          ELSE LET x == IdxRel(tb, kt, lv, s.in, mv, fl)
               IN IF x.er THEN ErrRes([in |-> x.in, cur |-> c], x.ld)
                  ELSE IF x.d = NoBlk THEN Res(tb, [in |-> x.in, cur |-> c], 0, x.ld)
                  ELSE IF fl - x.ld = 1 THEN ErrRes([in |-> x.in, cur |-> c], x.ld + 1)
                  ELSE LET b2 == B(tb, x.d)
                           e == [m |-> IF m = "next" THEN "first" ELSE "last", q |-> 0]
                           s2 == [in |-> x.in, cur |-> [blk |-> x.d, pos |-> MvPos(b2, 0, e)]]
                       IN Res(tb, s2, Ent(tb, s2), x.ld + 1)
LeF(tb, kt, lv, s, q, fl) ==
  LET g == GeF(tb, kt, lv, s, q, fl)
  IN IF g.er \/ (g.r # 0 /\ 2 * g.r = q) THEN g
     ELSE IF g.r # 0 THEN LET p == RelF(tb, kt, lv, g.s, "prev", fl - g.ld) IN [p EXCEPT !.ld = @ + g.ld]
     ELSE LET z == LastF(tb, kt, lv, g.s, fl - g.ld)
          IN [z EXCEPT !.ld = @ + g.ld, !.r = IF @ # 0 /\ 2 * @ <= q THEN @ ELSE 0]
EqF(tb, kt, lv, s, q, fl) ==
  LET g == GeF(tb, kt, lv, s, q, fl) IN [g EXCEPT !.r = IF @ # 0 /\ 2 * @ = q THEN @ ELSE 0]

(* ... when nothing fails *)
First(tb, kt, lv, s) == FirstF(tb, kt, lv, s, 0)
Last(tb, kt, lv, s)  == LastF(tb, kt, lv, s, 0)
Ge(tb, kt, lv, s, q) == GeF(tb, kt, lv, s, q, 0)
Le(tb, kt, lv, s, q) == LeF(tb, kt, lv, s, q, 0)
Eq(tb, kt, lv, s, q) == EqF(tb, kt, lv, s, q, 0)
Next_(tb, kt, lv, s) == RelF(tb, kt, lv, s, "next", 0)
Prev_(tb, kt, lv, s) == RelF(tb, kt, lv, s, "prev", 0)
=============================================================================
