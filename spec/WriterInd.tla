----------------------------- MODULE WriterInd -----------------------------
(* The writer's cuts and its order, for every block size, index interval, entry    *)
(* size and any number of inserts, by induction (Apalache, integers unbounded).     *)
(* Level D is the data block under construction, 1 the root, 2 the level under it;    *)
(* D and 3..D-1 are cut.  `s` the bytes of a block's entries, `n` their number, `o`     *)
(* its recorded offsets, `c` the entries since the last one, `last` its last key,         *)
(* `prev` its size before its last entry.  An insert is followed by the examination       *)
(* of level `at`, `at - 1`, .. 3.                                                             *)
EXTENDS Integers
CONSTANTS
  \* @type: Int;
  LV,
  \* @type: Bool;
  SORTED,
  \* @type: Str;
  MUT
VARIABLES
  \* @type: Int;
  B,
  \* @type: Int;
  I,
  \* @type: Int -> Int;
  s,
  \* @type: Int -> Int;
  n,
  \* @type: Int -> Int;
  o,
  \* @type: Int -> Int;
  c,
  \* @type: Int -> Int;
  last,
  \* @type: Int -> Int;
  prev,
  \* @type: Int;
  at,
  \* @type: Int;
  key,
  \* @type: Bool;
  panic,
  \* @type: Bool;
  over,
  \* @type: Bool;
  asc

CInit == LV = 3 /\ SORTED = TRUE /\ MUT = "none"
CInitAny == LV = 3 /\ SORTED = FALSE /\ MUT = "none"
(* mistakes *)
CInitLate == LV = 3 /\ SORTED = TRUE /\ MUT = "late"
CInitTable == LV = 3 /\ SORTED = TRUE /\ MUT = "table"
CInitGuard == LV = 3 /\ SORTED = FALSE /\ MUT = "guard"
CInitFirst == LV = 3 /\ SORTED = TRUE /\ MUT = "first"

D == LV + 2
Lvl == 1..5
Cut == {D} \cup 3..(LV + 1)
Size(l) == s[l] + 8 * o[l] + 4
(* the size the code goes by *)
Seen(l) == IF MUT = "table" THEN s[l] + 12 ELSE Size(l)
Full(l) == IF MUT = "late" THEN Seen(l) > B ELSE Seen(l) >= B

Init ==
  /\ B \in Int /\ B >= 1024 /\ I \in Int /\ I >= 1
  /\ s = [l \in Lvl |-> 0] /\ n = [l \in Lvl |-> 0] /\ o = [l \in Lvl |-> 1] /\ c = [l \in Lvl |-> 0]
  /\ last = [l \in Lvl |-> -1] /\ prev = [l \in Lvl |-> 12]
  /\ at = 0 /\ key = -1 /\ panic = FALSE /\ over = FALSE /\ asc = TRUE

(* what adding entry k of sz bytes makes of level l; e: the level emitted in the same step (0: none) *)
Apply(l, k, sz, e) ==
  LET new == c[l] = I
  IN /\ s' = [x \in Lvl |-> IF x = l THEN s[x] + sz ELSE IF x = e THEN 0 ELSE s[x]]
     /\ n' = [x \in Lvl |-> IF x = l THEN n[x] + 1 ELSE IF x = e THEN 0 ELSE n[x]]
     /\ o' = [x \in Lvl |-> IF x = l THEN (IF new THEN o[x] + 1 ELSE o[x]) ELSE IF x = e THEN 1 ELSE o[x]]
     /\ c' = [x \in Lvl |-> IF x = l THEN (IF new THEN 1 ELSE c[x] + 1) ELSE IF x = e THEN 0 ELSE c[x]]
     /\ last' = [x \in Lvl |-> IF x = l THEN k ELSE IF x = e THEN -1 ELSE last[x]]
     /\ prev' = [x \in Lvl |-> IF x = l THEN Size(l) ELSE IF x = e THEN 12 ELSE prev[x]]
     /\ asc' = (asc /\ (n[l] = 0 \/ k > last[l]))
Refuses(l, k) == n[l] > 0 /\ k <= last[l] /\ ~(MUT = "guard" /\ l # D)
Keep == UNCHANGED <<B, I>>
Same == UNCHANGED <<s, n, o, c, last, prev, asc>>

Insert ==
  /\ at = 0 /\ ~panic
  /\ \E k \in Int, sz \in Int :
       /\ k >= 0 /\ sz >= 2 /\ (SORTED => k > key)
       /\ key' = k
       /\ IF Refuses(D, k) THEN panic' = TRUE /\ Same /\ UNCHANGED at
          ELSE Apply(D, k, sz, 0) /\ at' = D /\ UNCHANGED panic
  /\ UNCHANGED over /\ Keep
Examine ==
  /\ at >= 3 /\ ~panic
  /\ IF Full(at)
     THEN LET k == IF MUT = "first" THEN last[at] - s[at] ELSE last[at]
          IN IF Refuses(at - 1, k) THEN panic' = TRUE /\ Same /\ UNCHANGED <<at, over>>
             ELSE /\ \E sz \in Int : sz >= 2 /\ Apply(at - 1, k, sz, at)
                  /\ over' = (over \/ prev[at] >= B)
                  /\ at' = (IF at = 3 THEN 0 ELSE at - 1) /\ UNCHANGED panic
     ELSE /\ Same /\ UNCHANGED <<panic, over>>
          /\ at' = (IF at = D \/ at = 3 THEN 0 ELSE at - 1)
  /\ UNCHANGED key /\ Keep
Next == Insert \/ Examine

(* ---- the induction hypothesis ---------------------------------------------------- *)
Type == /\ B \in Int /\ B >= 1024 /\ I \in Int /\ I >= 1
        /\ s \in [Lvl -> Int] /\ n \in [Lvl -> Int] /\ o \in [Lvl -> Int] /\ c \in [Lvl -> Int]
        /\ last \in [Lvl -> Int] /\ prev \in [Lvl -> Int]
        /\ at \in Int /\ (at = 0 \/ (3 <= at /\ at <= D)) /\ key \in Int /\ key >= -1
        /\ panic \in BOOLEAN /\ over \in BOOLEAN /\ asc \in BOOLEAN
Shape == \A l \in Lvl :
  /\ s[l] >= 2 * n[l] /\ n[l] >= 0 /\ o[l] >= 1 /\ c[l] >= 0 /\ c[l] <= I
  /\ last[l] >= -1 /\ last[l] <= key
  /\ (n[l] = 0 => s[l] = 0 /\ o[l] = 1 /\ c[l] = 0 /\ last[l] = -1 /\ prev[l] = 12)
  /\ (n[l] > 0 => last[l] >= 0)
Sizes == \A l \in Cut : /\ prev[l] < B
                       /\ (l # at => Size(l) < B)
Order == \A l \in Lvl, m \in Lvl : (l < m /\ n[l] > 0 /\ n[m] > 0) => last[l] < last[m]
Inv == Type /\ ~over /\ asc
       /\ (\A l \in Lvl : s[l] >= 2 * n[l] /\ n[l] >= 0 /\ o[l] >= 1 /\ c[l] >= 0 /\ c[l] <= I
             /\ (n[l] = 0 => s[l] = 0 /\ o[l] = 1 /\ c[l] = 0 /\ prev[l] = 12))
       /\ Sizes
       /\ (SORTED => Shape /\ Order /\ ~panic)
       (* a level is examined after the one below it has been emitted, or not at all *)
       /\ (at > 0 /\ at < D /\ ~panic => n[D] = 0)
(* ---- what it gives --------------------------------------------------------------------- *)
(* C15: no emitted block had reached B before its final entry.  C18: every block ascends;     *)
(* sorted inserts are not refused.                                                              *)
Bounds == ~over /\ asc /\ (SORTED => ~panic)
(* the hypothesis is not empty: every level under way, a long block (to be violated) *)
Covered == ~(at = 4 /\ n[4] > 1000 /\ n[3] > 5 /\ n[1] > 2 /\ n[2] > 3 /\ I > 3 /\ o[4] > 100 /\ Full(4))
=============================================================================
