-------------------------------- MODULE Open --------------------------------
(* Opening a byte string: what counts as a complete trailer, and the sequence  *)
(* of seeks and reads that finds it out on a source which may serve every read  *)
(* in pieces.  Widths are parameters: the format has W = 8, four-byte magics.    *)
EXTENDS Integers, Sequences
CONSTANTS W,        \* bytes of the root offset and of the entry count
          M1, M2,   \* the two magic numbers, as byte strings of one length
          CODECS,   \* known codec ids
          MUT       \* "none" or the name of a mistake
M == Len(M1)
TLenOf(v) == IF v = 2 THEN 2 * W + 2 + M ELSE 2 * W + 1 + M
MagicOf(v) == IF v = 2 THEN M2 ELSE M1
(* the definition: b = anything, root, codec, count, (levels), magic *)
Complete(b, v) ==
  \E p \in 0..Len(b) :
     /\ Len(b) - p = TLenOf(v)
     /\ SubSeq(b, Len(b) - M + 1, Len(b)) = MagicOf(v)
     /\ b[p + W + 1] \in CODECS
TrailerOf(b) == IF Complete(b, 2) THEN 2 ELSE IF Complete(b, 1) THEN 1 ELSE 0
FieldsOf(b, v) ==
  LET p == Len(b) - TLenOf(v)
  IN [ver |-> v, root |-> SubSeq(b, p + 1, p + W), codec |-> b[p + W + 1],
      count |-> SubSeq(b, p + W + 2, p + 2 * W + 1), levels |-> IF v = 2 THEN b[p + 2 * W + 2] ELSE 0]

(* ---- the procedure ----------------------------------------------------------- *)
(* [pc, pos: bytes before the read position, buf: bytes of the current field,       *)
(*  f: fields read, lo: lowest byte read, n: bytes read]                             *)
Begin == [pc |-> "tail", pos |-> 0, buf |-> <<>>, f |-> <<>>, lo |-> -1, n |-> 0]
Fields(v) == IF v = 2 THEN <<"root", "codec", "count", "levels">> ELSE <<"root", "codec", "count">>
Width(x) == IF x \in {"root", "count"} THEN W ELSE IF x = "magic" THEN M ELSE 1
Fail(s) == [s EXCEPT !.pc = "err"]
(* a seek to `back` bytes before the end; before the start of the source it fails *)
SeekBack(b, s, back, pc) ==
  IF back > Len(b) THEN IF MUT = "clamp" THEN [s EXCEPT !.pos = 0, !.pc = pc, !.buf = <<>>] ELSE Fail(s)
  ELSE [s EXCEPT !.pos = Len(b) - back, !.pc = pc, !.buf = <<>>]
(* the field read after field x of version v; "ok" after the last *)
After(x, v) == LET fs == Fields(v)
                   i == CHOOSE j \in DOMAIN fs : fs[j] = x
               IN IF i = Len(fs) THEN "ok" ELSE fs[i + 1]
Finish(b, s) ==     \* the field of s.pc is complete in s.buf
  IF s.pc = "magic"
  THEN LET v == IF s.buf = M2 THEN 2 ELSE IF s.buf = M1 THEN 1 ELSE 0
       IN IF v = 0 THEN Fail(s)
          ELSE [SeekBack(b, s, IF MUT = "short" /\ v = 2 THEN TLenOf(1) ELSE TLenOf(v), "root") EXCEPT
                  !.f = [ver |-> v, root |-> <<>>, codec |-> 0, count |-> <<>>, levels |-> 0]]
  ELSE LET g == CASE s.pc = "root" -> [s.f EXCEPT !.root = s.buf]
                  [] s.pc = "codec" -> [s.f EXCEPT !.codec = s.buf[1]]
                  [] s.pc = "count" -> [s.f EXCEPT !.count = s.buf]
                  [] s.pc = "levels" -> [s.f EXCEPT !.levels = s.buf[1]]
       IN IF s.pc = "codec" /\ s.buf[1] \notin CODECS /\ MUT # "codec" THEN Fail(s)
          ELSE [s EXCEPT !.f = g, !.pc = After(s.pc, s.f.ver), !.buf = <<>>]
(* the possible next states: a read call may return any non-empty part of what is asked *)
Steps(b, s) ==
  IF s.pc \in {"ok", "err"} THEN {}
  ELSE IF s.pc = "tail" THEN {SeekBack(b, s, M, "magic")}
  ELSE LET want == Width(s.pc) - Len(s.buf)
           have == Len(b) - s.pos
       IN IF have = 0 THEN {Fail(s)}
          ELSE {LET t == [s EXCEPT !.buf = @ \o SubSeq(b, s.pos + 1, s.pos + k), !.pos = @ + k, !.n = @ + k,
                                   !.lo = IF @ = -1 \/ s.pos < @ THEN s.pos ELSE @]
                IN IF Len(t.buf) = Width(s.pc) \/ MUT = "once" THEN Finish(b, t) ELSE t
                : k \in 1..(IF want < have THEN want ELSE have)}
=============================================================================
