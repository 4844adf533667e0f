----------------------------- MODULE VarintInt -----------------------------
(* The length framing on integers, for every length below 2^32 at once (Apalache). *)
(* A length is the sum of its digits; the thresholds of Len are on the number.       *)
EXTENDS Integers
CONSTANT
  \* @type: Str;
  MUT
VARIABLES
  \* @type: Int;
  n,
  \* @type: Int;
  m,
  (* the base-128 digits of n, least significant first *)
  \* @type: Int;
  d1,
  \* @type: Int;
  d2,
  \* @type: Int;
  d3,
  \* @type: Int;
  d4,
  \* @type: Int;
  d5
C == MUT = "none"
CMut == MUT = "four"
Digit(d) == 0 <= d /\ d < 128
Init == /\ d1 \in Int /\ d2 \in Int /\ d3 \in Int /\ d4 \in Int /\ d5 \in Int
        /\ Digit(d1) /\ Digit(d2) /\ Digit(d3) /\ Digit(d4) /\ 0 <= d5 /\ d5 < 16
        /\ n \in Int /\ n = d1 + 128 * d2 + 16384 * d3 + 2097152 * d4 + 268435456 * d5
        /\ m \in Int /\ 0 <= m /\ m < 4294967296
Next == UNCHANGED <<n, m, d1, d2, d3, d4, d5>>
\* @type: (Int) => Int;
Len(x) == IF x < 128 THEN 1 ELSE IF x < 16384 THEN 2 ELSE IF x < 2097152 THEN 3
          ELSE IF x < (IF MUT = "four" THEN 268435457 ELSE 268435456) THEN 4 ELSE 5
\* @type: (Int) => Int;
Byte(i) ==
  LET d == IF i = 1 THEN d1 ELSE IF i = 2 THEN d2 ELSE IF i = 3 THEN d3 ELSE IF i = 4 THEN d4 ELSE d5
  IN IF i < Len(n) THEN 128 + d ELSE d
(* what a decoder that stops at the first byte below 128 makes of bytes c1..c5 *)
\* @type: (Int, Int, Int, Int, Int) => Int;
DecLen(c1, c2, c3, c4, c5) == IF c1 < 128 THEN 1 ELSE IF c2 < 128 THEN 2 ELSE IF c3 < 128 THEN 3 ELSE IF c4 < 128 THEN 4 ELSE 5
\* @type: (Int) => Int;
Low(c) == IF c >= 128 THEN c - 128 ELSE c
\* @type: (Int, Int, Int, Int, Int) => Int;
Dec(c1, c2, c3, c4, c5) ==
  LET L == DecLen(c1, c2, c3, c4, c5)
  IN Low(c1) + (IF L >= 2 THEN 128 * Low(c2) ELSE 0) + (IF L >= 3 THEN 16384 * Low(c3) ELSE 0)
     + (IF L >= 4 THEN 2097152 * Low(c4) ELSE 0) + (IF L >= 5 THEN 268435456 * Low(c5) ELSE 0)
(* the bytes past the encoding are anything: m stands for each of them *)
\* @type: (Int) => Int;
At(i) == IF i <= Len(n) THEN Byte(i) ELSE m % 256
(* the number of bytes is that of the highest digit *)
Digits == Len(n) = (IF d5 > 0 THEN 5 ELSE IF d4 > 0 THEN 4 ELSE IF d3 > 0 THEN 3 ELSE IF d2 > 0 THEN 2 ELSE 1)
RoundTrip == /\ DecLen(At(1), At(2), At(3), At(4), At(5)) = Len(n)
             /\ Dec(At(1), At(2), At(3), At(4), At(5)) = n
Bytes == /\ \A i \in 1..5 : i <= Len(n) => Byte(i) >= 0 /\ Byte(i) < 256
         (* the fifth byte has four bits *)
         /\ Len(n) = 5 => Byte(5) < 16
(* the length of the framing never decreases *)
Mono == n <= m => Len(n) <= Len(m)
All == Digits /\ RoundTrip /\ Bytes /\ Mono
=============================================================================
