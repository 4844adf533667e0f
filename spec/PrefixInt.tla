----------------------------- MODULE PrefixInt -----------------------------
(* A prefix as an interval, on every pair of byte strings of up to N bytes of the    *)
(* whole range 0..255 (Apalache): k starts with p exactly when p <= k and k is below the   *)
(* successor of p, all bytes 255 having none; no key starting with p equals the successor,  *)
(* and the last key below it is the last with the prefix if there is one.  The design models  *)
(* of Iter establish the same over a few bytes.                                                  *)
EXTENDS Integers
CONSTANTS
  \* @type: Int;
  N,
  \* @type: Str;
  MUT
VARIABLES
  \* @type: Int -> Int;
  k,
  \* @type: Int;
  lk,
  \* @type: Int -> Int;
  p,
  \* @type: Int;
  lp

CInit == N = 5 /\ MUT = "none"
CInitLong == N = 8 /\ MUT = "none"
CInitCarry == N = 3 /\ MUT = "carry"    (* 255 becomes 0 and stays *)
CInitWrap == N = 3 /\ MUT = "wrap"      (* all bytes 255: the empty string for a successor *)
CInitLast == N = 3 /\ MUT = "last"      (* only the last byte is looked at *)

Ix == 1..9
Ix0 == 0..9
\* @type: (Int -> Int, Int) => Bool;
Str(f, l) == /\ f \in [Ix -> Int] /\ l \in Int /\ 0 <= l /\ l <= N
             /\ \A i \in Ix : 0 <= f[i] /\ f[i] <= 255 /\ (i > l => f[i] = 0)
Init == Str(k, lk) /\ Str(p, lp)
Next == UNCHANGED <<k, lk, p, lp>>

(* the first l1 bytes of f below the first l2 of g *)
\* @type: (Int -> Int, Int, Int -> Int, Int) => Bool;
Less(f, l1, g, l2) ==
  \E i \in Ix :
    /\ \A j \in Ix : j < i => (j <= l1 /\ j <= l2 /\ f[j] = g[j])
    /\ i <= l2 /\ (i > l1 \/ f[i] < g[i])
Starts == lk >= lp /\ \A j \in Ix : j <= lp => k[j] = p[j]
(* the last byte of p that is not 255 (0: none) *)
IsPivot(i) == /\ i <= lp
              /\ \A j \in Ix : (j > i /\ j <= lp) => p[j] = 255
              /\ (i > 0 => p[i] < 255)
Succ(i) == [j \in Ix |-> IF j < i THEN p[j] ELSE IF j = i THEN p[j] + 1 ELSE 0]
Len(i) == IF MUT = "carry" THEN lp ELSE i
Has(i) == IF MUT = "wrap" THEN TRUE ELSE IF MUT = "last" THEN lp > 0 /\ i = lp ELSE i > 0
Interval ==
  \A i \in Ix0 : IsPivot(i) =>
    /\ Starts <=> (~Less(k, lk, p, lp) /\ (Has(i) => Less(k, lk, Succ(i), Len(i))))
    /\ (Has(i) => Less(p, lp, Succ(i), Len(i)))
(* the pivot exists and is one *)
Pivot == \E i \in Ix0 : IsPivot(i) /\ \A j \in Ix0 : IsPivot(j) => j = i
Inv == Interval /\ Pivot
(* to be violated *)
Covered == ~(Starts /\ lp = 3 /\ p[3] = 255 /\ p[2] = 255 /\ p[1] = 7 /\ lk = 5 /\ k[4] = 255)
=============================================================================
