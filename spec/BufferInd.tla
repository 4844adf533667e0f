----------------------------- MODULE BufferInd -----------------------------
(* The arithmetic of the sorter's buffer and chunks for every budget, chunk      *)
(* limit and entry size, by induction (Apalache, integers unbounded).  `cap` is   *)
(* the buffer, `used` the bytes of keys and values in it, `n` its entries; an      *)
(* insert of `sz` bytes is under way when pc is "put" or "spilt".                    *)
EXTENDS Integers
CONSTANTS
  \* @type: Int;
  BOUND,
  \* @type: Int;
  INIT,
  \* @type: Int;
  MIN,
  \* @type: Str;
  MUT
VARIABLES
  \* @type: Int;
  T,
  \* @type: Bool;
  re,
  \* @type: Int;
  max,
  \* @type: Int;
  cap,
  \* @type: Int;
  used,
  \* @type: Int;
  n,
  \* @type: Int;
  sz,
  \* @type: Str;
  pc,
  \* @type: Int;
  chunks,
  \* @type: Int;
  live

CInit == BOUND = 16 /\ INIT = 131072 /\ MIN = 10485760 /\ MUT = "none"
CInitHook == BOUND = 16 /\ INIT = 128 /\ MIN = 1024 /\ MUT = "none"
(* mistakes *)
CInitLate == BOUND = 16 /\ INIT = 131072 /\ MIN = 10485760 /\ MUT = "late"
CInitNobound == BOUND = 16 /\ INIT = 131072 /\ MIN = 10485760 /\ MUT = "nobound"
CInitNomerge == BOUND = 16 /\ INIT = 131072 /\ MIN = 10485760 /\ MUT = "nomerge"

Up(x) == ((x + BOUND - 1) \div BOUND) * BOUND
Room == cap - used - BOUND * n
Fits == Room >= (IF MUT = "nobound" THEN 0 ELSE BOUND) + sz
Small(x) == 0 <= x /\ 4 * x <= T

Init ==
  /\ T \in Int /\ T >= MIN /\ re \in BOOLEAN /\ max \in Int /\ max >= 1
  /\ cap = (IF re THEN INIT ELSE Up(T))
  /\ used = 0 /\ n = 0 /\ sz = 0 /\ pc = "idle" /\ chunks = 0 /\ live = 0

Keep == UNCHANGED <<T, re, max>>
Call == /\ pc = "idle"
        /\ \E x \in Int : Small(x) /\ sz' = x
        /\ pc' = "asked" /\ UNCHANGED <<cap, used, n, chunks, live>> /\ Keep
(* put it, or write the buffer out first *)
Decide == /\ pc = "asked"
          /\ IF Fits \/ (re /\ (IF MUT = "late" THEN cap < 4 * T ELSE cap < T))
             THEN pc' = "put" /\ UNCHANGED <<used, n, chunks, live>>
             ELSE /\ pc' = "spilt" /\ used' = 0 /\ n' = 0
                  /\ chunks' = chunks + 1 /\ live' = live + 1
          /\ UNCHANGED <<cap, sz>> /\ Keep
Put == /\ pc \in {"put", "spilt"} /\ Fits
       /\ used' = used + sz /\ n' = n + 1
       /\ pc' = (IF pc = "spilt" /\ chunks >= max /\ MUT # "nomerge" THEN "merge" ELSE "idle")
       /\ UNCHANGED <<cap, sz, chunks, live>> /\ Keep
Grow == /\ pc \in {"put", "spilt"} /\ ~Fits
        /\ cap' = 2 * cap
        /\ UNCHANGED <<used, n, sz, pc, chunks, live>> /\ Keep
(* a new chunk while the old ones are still there *)
Merge == /\ pc = "merge" /\ live' = chunks + 1 /\ pc' = "merged"
         /\ UNCHANGED <<cap, used, n, sz, chunks>> /\ Keep
Merged == /\ pc = "merged" /\ chunks' = 1 /\ live' = 1 /\ pc' = "idle"
          /\ UNCHANGED <<cap, used, n, sz>> /\ Keep
Finish == /\ pc = "idle" /\ chunks' = chunks + 1 /\ live' = live + 1 /\ pc' = "end"
          /\ UNCHANGED <<cap, used, n, sz>> /\ Keep
Next == Call \/ Decide \/ Put \/ Grow \/ Merge \/ Merged \/ Finish

(* ---- the induction hypothesis ---------------------------------------------------- *)
Type == /\ T \in Int /\ T >= MIN /\ re \in BOOLEAN /\ max \in Int /\ max >= 1
        /\ cap \in Int /\ used \in Int /\ n \in Int /\ sz \in Int /\ chunks \in Int /\ live \in Int
        /\ pc \in {"idle", "asked", "put", "spilt", "merge", "merged", "end"}
Inv ==
  /\ Type
  /\ Small(sz) /\ used >= 0 /\ n >= 0 /\ cap >= INIT
  /\ Room >= 0
  /\ (n = 0 => used = 0)
  /\ (re => cap < 2 * T)
  /\ (~re => cap = Up(T))
  (* a buffer that has reached the budget has room for one more small entry, while putting one *)
  /\ (pc \in {"put", "spilt"} /\ (cap >= T) => Fits)
  /\ (pc = "spilt" => used = 0 /\ n = 0)
  /\ chunks >= 0 /\ live >= chunks
  /\ (pc \in {"idle", "asked", "put"} => live = chunks /\ chunks <= max)
  /\ (pc \in {"spilt", "merge"} => live = chunks /\ chunks <= max + 1)
  /\ (pc \in {"merged"} => live = chunks + 1 /\ chunks <= max + 1)
  /\ (pc \in {"end"} => live = chunks /\ chunks <= max + 1)
(* ---- what it gives: C08's bounds, C17's room ------------------------------------------ *)
Bounds == /\ used <= (IF re THEN 2 * T ELSE T)
          /\ live <= max + 2
          /\ BOUND * n + used <= cap
(* the hypothesis is not empty: a full buffer past its budget beside many chunks (to be violated) *)
Covered == ~(re /\ used > T /\ pc = "merged" /\ live > 5)
=============================================================================
