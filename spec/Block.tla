------------------------------- MODULE Block -------------------------------
(* One decompressed block: n entries with ascending integer keys, a footer   *)
(* that records every I-th entry, and the cursor over it.                    *)
(* pos: 0 = not positioned, 1..n = on an entry, n+1 = past the last one.     *)
(* Two layers: the operators B* are what the cursor is meant to do (used by  *)
(* Cursor), the operators F* are how the code does it, through the footer    *)
(* table; MC_Block checks that they agree for every block, interval, probe.  *)
EXTENDS Integers, Sequences

(* ---- meaning ---------------------------------------------------------- *)
BRet(b, p) == IF p \in 1..Len(b) THEN p ELSE 0
BFirst(b) == 1                         \* past the end of an empty block
BLast(b, p) == IF Len(b) = 0 THEN p ELSE Len(b)
BNext(b, p) == IF p = 0 THEN BFirst(b) ELSE IF p <= Len(b) THEN p + 1 ELSE p
BPrev(b, p) == IF p = 0 THEN BLast(b, p)
               ELSE IF p = 1 \/ p > Len(b) THEN p ELSE p - 1
(* what prev reports: None when it did not move *)
BPrevRet(b, p) == IF p = 0 THEN BRet(b, BLast(b, p))
                  ELSE IF p = 1 \/ p > Len(b) THEN 0 ELSE p - 1
(* greatest entry with key <= q, 0 if none *)
BLe(b, q) == LET S == {i \in 1..Len(b) : b[i] <= q}
             IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
(* smallest entry with key >= q; one past the end if none *)
BGe(b, q) == LET f == BLe(b, q)
             IN IF f > 0 /\ b[f] = q THEN f ELSE IF f > 0 THEN f + 1 ELSE BFirst(b)

(* ---- mechanism --------------------------------------------------------- *)
(* the footer: entry numbers 1, 1+I, 1+2I, ...; always at least one element *)
Foot(b, I) == [i \in 1..(IF Len(b) = 0 THEN 1 ELSE ((Len(b) - 1) \div I) + 1) |-> 1 + (i - 1) * I]
FKey(b, p) == IF p \in 1..Len(b) THEN b[p] ELSE -1   \* no entry there: below every key
(* slice::binary_search_by_key: an index holding the key, or the insertion point *)
FSearch(b, f, q) ==
  LET eq == {i \in DOMAIN f : FKey(b, f[i]) = q}
      lt == {i \in DOMAIN f : FKey(b, f[i]) < q}
      max(S) == CHOOSE i \in S : \A j \in S : j <= i
  IN IF eq # {} THEN [ok |-> TRUE, i |-> max(eq)]
     ELSE [ok |-> FALSE, i |-> IF lt = {} THEN 0 ELSE max(lt)]   \* = Err(i) - 1, as an index from 1
RECURSIVE FScan(_, _, _, _)
FScan(b, p, q, cur) ==
  IF p > Len(b) \/ b[p] > q THEN cur ELSE FScan(b, p + 1, q, p)
FLe(b, I, q) ==
  LET f == Foot(b, I)
      s == FSearch(b, f, q)
  IN IF s.ok THEN f[s.i]
     ELSE IF s.i = 0 THEN 0
     ELSE FScan(b, f[s.i], q, 0)
FLast(b, I, p) ==
  LET f == Foot(b, I)
      RECURSIVE go(_, _)
      go(x, cur) == IF x > Len(b) THEN cur ELSE go(x + 1, x)
  IN go(f[Len(f)], p)
(* prev: the greatest footer element strictly before p, then walk to p *)
FPrev(b, I, p) ==
  IF p = 0 THEN [pos |-> FLast(b, I, p), r |-> BRet(b, FLast(b, I, p))]
  ELSE LET f == Foot(b, I)
           S == {i \in DOMAIN f : f[i] < p}
       IN IF S = {} THEN [pos |-> p, r |-> 0]
          ELSE IF p > Len(b) THEN [pos |-> p, r |-> 0]
          ELSE LET i == CHOOSE i \in S : \A j \in S : j <= i
                   RECURSIVE go(_, _)
                   go(x, cur) == IF x > Len(b) \/ b[x] = b[p] THEN cur ELSE go(x + 1, x)
                   c == go(f[i], p)
               IN [pos |-> c, r |-> BRet(b, c)]
FGe(b, I, q) ==
  LET f == FLe(b, I, q)
  IN IF f > 0 /\ b[f] = q THEN f ELSE IF f > 0 THEN f + 1 ELSE 1
=============================================================================
