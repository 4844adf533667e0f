------------------------------ MODULE LoadsInd ------------------------------
(* How many blocks one operation of the cursor loads, for every number of index    *)
(* levels, by induction (Apalache, integers unbounded): Cursor's walks without what     *)
(* the blocks hold (whether a block is cached, a move finds an entry or a key is there    *)
(* is free).  Index levels 1 (root) .. L + 1, then the data block.                           *)
EXTENDS Integers
CONSTANTS
  \* @type: Str;
  MUT
VARIABLES
  \* @type: Int;
  L,
  \* @type: Str;
  op,
  \* @type: Int;
  half,
  \* @type: Str;
  pc,
  \* @type: Int;
  lvl,
  \* @type: Int;
  top,
  \* @type: Int;
  loads

CInit == MUT = "none"
CInitWalk == MUT = "walk"      (* the floor is looked for block after block *)
CInitTwice == MUT = "twice"    (* an index block is loaded to look at it and again to use it *)

Ops == {"first", "last", "next", "prev", "ge", "le", "eq"}
Init == /\ L \in Int /\ L >= 0 /\ op = "none" /\ half = 1 /\ pc = "idle" /\ lvl = 0 /\ top = 0 /\ loads = 0
Keep == UNCHANGED L

(* first, last and the seeks come down from the root, next and prev look at their block first *)
Call == /\ pc = "idle"
        /\ \E x \in Ops :
             /\ op' = x
             /\ \/ x \notin {"next", "prev"} /\ pc' = "down" /\ lvl' = 1
                \/ x \in {"next", "prev"} /\ pc' = "down" /\ lvl' = 1      (* never positioned: as first and last *)
                \/ x \in {"next", "prev"} /\ pc' = "in" /\ lvl' = L + 1
        /\ half' = 1 /\ loads' = 0 /\ top' = 0 /\ Keep
(* at level lvl coming down from the root: cached or loaded, an entry found or not *)
Down == /\ pc = "down" /\ lvl <= L + 1
        /\ \E x \in {0, 1} : loads' = loads + (IF MUT = "twice" THEN 2 * x ELSE x)
        /\ \/ lvl' = lvl + 1 /\ pc' = "down"
           \/ lvl' = lvl /\ pc' = "none"
        /\ UNCHANGED <<op, half, top>> /\ Keep
(* in the data block: an entry beside the current one, or the index is asked *)
In == /\ pc = "in"
      /\ \/ pc' = "done" /\ UNCHANGED <<lvl>>
         \/ pc' = "up" /\ lvl' = L + 1
      /\ UNCHANGED <<op, half, top, loads>> /\ Keep
Up == /\ pc = "up"
      /\ \/ lvl = 0 /\ pc' = "none" /\ UNCHANGED <<lvl, top>>
         \/ lvl > 0 /\ pc' = "up" /\ lvl' = lvl - 1 /\ UNCHANGED top
         \/ lvl > 0 /\ pc' = "back" /\ top' = lvl /\ lvl' = lvl + 1
      /\ UNCHANGED <<op, half, loads>> /\ Keep
(* from the level that had a neighbour down again, every block on the way is another one *)
Back == /\ pc = "back" /\ lvl <= L + 1
        /\ loads' = loads + 1
        /\ \/ lvl' = lvl + 1 /\ pc' = "back"
           \/ lvl' = lvl /\ pc' = "none"
        /\ UNCHANGED <<op, half, top>> /\ Keep
Data == /\ pc \in {"down", "back"} /\ lvl = L + 2
        /\ loads' = loads + 1 /\ pc' = (IF MUT = "walk" /\ half = 2 /\ op = "le" THEN "walk" ELSE "done")
        /\ UNCHANGED <<op, half, lvl, top>> /\ Keep
Walk == /\ pc = "walk" /\ loads' = loads + 1 /\ pc' \in {"walk", "done"}
        /\ UNCHANGED <<op, half, lvl, top>> /\ Keep
(* the floor: the ceiling first, then the entry before it or the last one *)
Second == /\ op = "le" /\ half = 1 /\ pc \in {"done", "none"}
          /\ half' = 2
          /\ \/ pc = "done" /\ pc' = "in" /\ lvl' = L + 1
             \/ pc = "none" /\ pc' = "down" /\ lvl' = 1
          /\ UNCHANGED <<op, top, loads>> /\ Keep
Return == /\ pc \in {"done", "none"} /\ pc' = "idle"
          /\ UNCHANGED <<op, half, lvl, top, loads>> /\ Keep
Next == Call \/ Down \/ In \/ Up \/ Back \/ Data \/ Walk \/ Second \/ Return

Inv ==
  /\ L \in Int /\ L >= 0 /\ half \in {1, 2} /\ lvl \in Int /\ top \in Int /\ loads \in Int
  /\ op \in Ops \cup {"none"} /\ pc \in {"idle", "down", "in", "up", "back", "done", "none", "walk"}
  /\ (half = 2 => op = "le")
  /\ 0 <= loads
  /\ (pc = "down" => 1 <= lvl /\ lvl <= L + 2 /\ loads <= (IF half = 1 THEN 0 ELSE L + 2) + lvl - 1)
  /\ (pc \in {"in", "up"} => 0 <= lvl /\ lvl <= L + 1 /\ loads <= (IF half = 1 THEN 0 ELSE L + 2))
  /\ (pc = "back" => 1 <= top /\ top < lvl /\ lvl <= L + 2 /\ loads <= (IF half = 1 THEN 0 ELSE L + 2) + lvl - top - 1)
  /\ (pc \in {"done", "none"} => loads <= (IF half = 1 THEN L + 2 ELSE 2 * (L + 2)))
  /\ (pc = "walk" => FALSE)
  /\ (pc = "idle" => loads <= 2 * (L + 2))
(* C16 *)
Bounds == loads <= 2 * (L + 2)
(* the hypothesis is not empty (to be violated) *)
Covered == ~(pc = "down" /\ op = "le" /\ half = 2 /\ L > 100 /\ loads = L + 60)
=============================================================================
