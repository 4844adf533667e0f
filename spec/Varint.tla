------------------------------- MODULE Varint -------------------------------
(* The length framing on digits: a length is five base-BASE digits, least     *)
(* significant first (BASE = 128, the last digit below TOP = 16).  A byte is a *)
(* digit, plus BASE when more bytes follow.                                     *)
EXTENDS Integers, Sequences
CONSTANTS BASE, TOP
N == 5
Lengths == [1..(N - 1) -> 0..(BASE - 1)] \X (0..(TOP - 1))
EncLen(d) == LET nz == {i \in 1..N : d[i] # 0} IN IF nz = {} THEN 1 ELSE CHOOSE i \in nz : \A j \in nz : j <= i
EncByte(L, i, x) == IF i < L THEN BASE + x ELSE x
Enc(d) == LET L == EncLen(d) IN [i \in 1..L |-> EncByte(L, i, d[i])]
(* number of bytes the framing at the head of b takes; 0 when incomplete *)
RECURSIVE DecLen(_, _)
DecLen(b, i) == IF i > Len(b) \/ i > N THEN 0 ELSE IF b[i] < BASE THEN i ELSE DecLen(b, i + 1)
Dec(b) == LET L == DecLen(b, 1) IN [i \in 1..N |-> IF i <= L THEN (IF b[i] < BASE THEN b[i] ELSE b[i] - BASE) ELSE 0]
(* the digits of BASE^n *)
Pow(n) == [i \in 1..N |-> IF i = n + 1 THEN 1 ELSE 0]
(* smallest and largest length of L bytes, how many there are *)
ClassLo(L) == IF L = 1 THEN [i \in 1..N |-> 0] ELSE Pow(L - 1)
ClassHi(L) == [i \in 1..N |-> IF i = N THEN (IF L = N THEN TOP - 1 ELSE 0) ELSE IF i <= L THEN BASE - 1 ELSE 0]
ClassCnt(L) ==    \* BASE^L - BASE^(L-1) (BASE for L = 1; TOP * BASE^4 - BASE^4 for L = 5)
  IF L = 1 THEN Pow(1)
  ELSE IF L = N THEN [i \in 1..N |-> IF i = N THEN TOP - 1 ELSE 0]
  ELSE [i \in 1..N |-> IF i = L THEN BASE - 1 ELSE 0]
=============================================================================
