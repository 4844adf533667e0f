------------------------------- MODULE Format -------------------------------
(* The file format, byte by byte and as a structure.                          *)
(*   file    ::= block* trailer                                                *)
(*   block   ::= stored length (u64 BE) , stored bytes                          *)
(*   raw     ::= entry* offset(u64 BE)* count(u32 BE)      (after decompression) *)
(*   entry   ::= varint key length, varint value length, key, value               *)
(*   trailer ::= V2: root u64 LE, codec u8, count u64 LE, levels u8, magic u32 LE  *)
(*               V1: root u64 LE, codec u8, count u64 LE, magic u32 LE              *)
(* TLC integers have 32 bits: a larger number decodes to -1, which nothing equals.  *)
EXTENDS Integers, Sequences

Sum(s) == LET RECURSIVE f(_) f(i) == IF i = 0 THEN 0 ELSE s[i] + f(i - 1) IN f(Len(s))

(* big-endian / little-endian numbers of n bytes at position i (from 1) *)
RECURSIVE BEFrom(_, _, _, _)
BEFrom(b, i, n, acc) == IF n = 0 THEN acc
                        ELSE IF acc < 0 \/ acc >= 8388608 THEN -1
                        ELSE BEFrom(b, i + 1, n - 1, 256 * acc + b[i])
BE(b, i, n) == BEFrom(b, i, n, 0)
RECURSIVE LEFrom(_, _, _, _)
LEFrom(b, i, n, acc) == IF n = 0 THEN acc
                        ELSE IF acc < 0 \/ acc >= 8388608 THEN -1
                        ELSE LEFrom(b, i, n - 1, 256 * acc + b[i + n - 1])
LE(b, i, n) == LEFrom(b, i, n, 0)

(* ---- trailer -------------------------------------------------------------- *)
MAGIC2 == <<196, 212, 35, 103>>     \* 0x6723D4C4, little-endian
MAGIC1 == <<76, 77, 50, 118>>       \* 0x76324D4C
CODECS == 0..5
EndsWith(b, m) == Len(b) >= Len(m) /\ SubSeq(b, Len(b) - Len(m) + 1, Len(b)) = m
TLen(v) == IF v = 2 THEN 22 ELSE 21
(* The version of the complete trailer the byte string ends with, 0 if none. *)
(* `b` is the whole string or its last 22 bytes (or more).                    *)
VersionOf(b) ==
  IF EndsWith(b, MAGIC2) THEN IF Len(b) >= 22 /\ b[Len(b) - 13] \in CODECS THEN 2 ELSE 0
  ELSE IF EndsWith(b, MAGIC1) THEN IF Len(b) >= 21 /\ b[Len(b) - 12] \in CODECS THEN 1 ELSE 0
  ELSE 0
Root(b, v)  == SubSeq(b, Len(b) - TLen(v) + 1, Len(b) - TLen(v) + 8)
Codec(b, v) == b[Len(b) - TLen(v) + 9]
Count(b, v) == SubSeq(b, Len(b) - TLen(v) + 10, Len(b) - TLen(v) + 17)
Levels(b, v) == IF v = 2 THEN b[Len(b) - 4] ELSE 0

(* ---- entry framing ---------------------------------------------------------- *)
VarLen(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE IF n < 2097152 THEN 3
             ELSE IF n < 268435456 THEN 4 ELSE 5
RECURSIVE VarFrom(_, _, _, _, _)
VarFrom(b, i, w, acc, n) ==     \* [v, n] with v = -1 when it does not end within five bytes
  IF i > Len(b) \/ n = 5 THEN [v |-> -1, n |-> n]
  ELSE IF b[i] < 128 THEN IF n = 4 /\ b[i] > 7 THEN [v |-> -1, n |-> 5] ELSE [v |-> acc + w * b[i], n |-> n + 1]
  ELSE VarFrom(b, i + 1, IF n < 4 THEN w * 128 ELSE w, acc + w * (b[i] - 128), n + 1)
Varint(b, i) == VarFrom(b, i, 1, 0, 0)
EntrySize(kl, vl) == VarLen(kl) + VarLen(vl) + kl + vl
IndexEntrySize(kl) == EntrySize(kl, 8)

(* ---- blocks ------------------------------------------------------------------- *)
NFoot(n, I) == IF n = 0 THEN 1 ELSE ((n - 1) \div I) + 1
(* the uncompressed size of a block of these entry sizes *)
BlockSize(sum, n, I) == sum + 8 * NFoot(n, I) + 4

BAD == [ok |-> FALSE]
RECURSIVE EntriesFrom(_, _, _, _)
EntriesFrom(raw, p, end, acc) ==       \* p: bytes consumed so far
  IF p = end THEN [ok |-> TRUE, es |-> acc]
  ELSE LET a == Varint(raw, p + 1)
           c == Varint(raw, p + 1 + a.n)
           s == p + a.n + c.n
       IN IF a.v < 0 \/ c.v < 0 \/ a.v > end \/ c.v > end \/ s + a.v + c.v > end THEN BAD
          ELSE EntriesFrom(raw, s + a.v + c.v, end,
                 Append(acc, [at |-> p, k |-> SubSeq(raw, s + 1, s + a.v),
                              v |-> SubSeq(raw, s + a.v + 1, s + a.v + c.v)]))
DecodeBlock(raw) ==
  LET L == Len(raw)
      nf == IF L < 4 THEN -1 ELSE BE(raw, L - 3, 4)
  IN IF L < 4 \/ nf < 0 \/ nf > L \/ 8 * nf > L - 4 THEN BAD
     ELSE LET pl == L - 4 - 8 * nf
              e == EntriesFrom(raw, 0, pl, <<>>)
          IN IF ~e.ok THEN BAD
             ELSE [ok |-> TRUE, es |-> e.es, ft |-> [i \in 1..nf |-> BE(raw, pl + 8 * (i - 1) + 1, 8)]]
(* one offset per interval, the first one 0 *)
FooterOk(at, ft, I) ==
  /\ Len(ft) = NFoot(Len(at), I)
  /\ ft[1] = 0
  /\ \A i \in 2..Len(ft) : ft[i] = at[1 + (i - 1) * I]

(* the blocks area cut at the length prefixes: sequence of [o, st] *)
RECURSIVE WalkFrom(_, _, _, _)
WalkFrom(b, o, end, acc) ==
  IF o = end THEN [ok |-> TRUE, bl |-> acc]
  ELSE IF o + 8 > end THEN BAD
  ELSE LET st == BE(b, o + 1, 8)
       IN IF st < 0 \/ o + 8 + st > end THEN BAD
          ELSE WalkFrom(b, o + 8 + st, end, Append(acc, [o |-> o, st |-> st]))

(* ---- the structure of a finished file ------------------------------------------- *)
(* blocks: in file order, [l |-> level (0 root .. lv+1 data), o, st,                  *)
(*   e |-> entry numbers (data) or numbers of the entry whose key is recorded (index), *)
(*   c |-> recorded child offsets (index), at, ft]                                      *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
OfLevel(bl, l) == SelectSeq(bl, LAMBDA b : b.l = l)
Contiguous(bl, end) ==
  /\ IF bl = <<>> THEN end = 0 ELSE bl[1].o = 0 /\ bl[Len(bl)].o + 8 + bl[Len(bl)].st = end
  /\ \A i \in 1..(Len(bl) - 1) : bl[i + 1].o = bl[i].o + 8 + bl[i].st
DataOk(bl, lv, n) == LET f == Flat([i \in DOMAIN OfLevel(bl, lv + 1) |-> OfLevel(bl, lv + 1)[i].e])
                     IN f = [i \in 1..n |-> i]
IndexOk(bl, lv) ==
  \A l \in 0..lv :
    LET p == OfLevel(bl, l)
        c == OfLevel(bl, l + 1)
        cs == Flat([i \in DOMAIN p |-> p[i].c])
        ks == Flat([i \in DOMAIN p |-> p[i].e])
    IN /\ cs = [i \in DOMAIN c |-> c[i].o]
       /\ Len(ks) = Len(c)
       /\ \A i \in DOMAIN c : Len(c[i].e) > 0 /\ ks[i] = c[i].e[Len(c[i].e)]
FileOk(f) ==
  /\ Contiguous(f.bl, f.tr)
  /\ LET r == OfLevel(f.bl, 0) IN Len(r) = 1 /\ r[1].o = f.root
  /\ DataOk(f.bl, f.lv, f.n)
  /\ (f.n > 0 => IndexOk(f.bl, f.lv))
  /\ (f.n = 0 => Len(f.bl) = 1 /\ f.bl[1].e = <<>>)
  /\ \A i \in DOMAIN f.bl : FooterOk(f.bl[i].at, f.bl[i].ft, f.ivl)
=============================================================================
