---------------------------- MODULE Trace_Format ----------------------------
(* C09: finished files, decoded here byte by byte when small, checked as a     *)
(* structure otherwise; what 0.4.7 reads from them and we read from its files. *)
(* C13: what opening an arbitrary byte string must answer.                      *)
EXTENDS Format, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n
vars == <<l, n>>
Init == l = 1 /\ n = -1
(* evaluated as a value: TLC would unroll a quantifier of an action *)
Holds(p) == IF p THEN TRUE ELSE FALSE
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Begin == Is("begin") /\ n' = E.n
(* the structure recovered by the independent decoder *)
File == /\ Is("file") /\ UNCHANGED n
        /\ E.ver = 2 /\ E.codec = E.wcodec /\ E.lv = E.wlv /\ E.count = n /\ E.n = n
        /\ Holds(FileOk(E))
(* the whole file as bytes (codec None), or its blocks decompressed: `ub` *)
EntNo(kvs, k, v) == IF \E i \in DOMAIN kvs : kvs[i].k = k /\ kvs[i].v = v
                    THEN CHOOSE i \in DOMAIN kvs : kvs[i].k = k /\ kvs[i].v = v ELSE -1
KeyNo(kvs, k) == IF \E i \in DOMAIN kvs : kvs[i].k = k THEN CHOOSE i \in DOMAIN kvs : kvs[i].k = k ELSE -1
LevelsOf(blk, root, lv) ==   \* level of every block number, by descending from the root
  LET byOff(o) == IF \E i \in DOMAIN blk : blk[i].o = o THEN CHOOSE i \in DOMAIN blk : blk[i].o = o ELSE 0
      RECURSIVE go(_, _, _)
      go(front, d, acc) ==
        IF d = lv + 1 THEN acc \cup {<<i, d>> : i \in front}
        ELSE go(UNION {{byOff(IF Len(blk[i].b.es[j].v) = 8 THEN BE(blk[i].b.es[j].v, 1, 8) ELSE -1)
                          : j \in DOMAIN blk[i].b.es} : i \in front \ {0}},
                d + 1, acc \cup {<<i, d>> : i \in front})
  IN go({byOff(root)}, 0, {})
DecodedOk(tail, walk, raws, kvs, wlv, wcodec, ivl, end) ==
  /\ VersionOf(tail) = 2
  /\ Codec(tail, 2) = wcodec /\ Levels(tail, 2) = wlv /\ LE(Count(tail, 2), 1, 8) = Len(kvs)
  /\ LET blk == [i \in DOMAIN walk |-> [o |-> walk[i].o, st |-> walk[i].st, b |-> DecodeBlock(raws[i])]]
     IN /\ \A i \in DOMAIN blk : blk[i].b.ok
        /\ LET root == LE(Root(tail, 2), 1, 8)
               lvs == LevelsOf(blk, root, wlv)
           IN /\ \A i \in DOMAIN blk : Len(kvs) > 0 => \E d \in 0..(wlv + 1) : <<i, d>> \in lvs
              /\ \A x, y \in lvs : x[1] = y[1] => x = y
              /\ \A x \in lvs : x[1] # 0
              /\ LET lvl(i) == CHOOSE d \in 0..(wlv + 1) : <<i, d>> \in lvs
                 IN FileOk([bl |-> [i \in DOMAIN blk |->
                              LET es == blk[i].b.es
                              IN [l |-> IF Len(kvs) = 0 THEN 0 ELSE lvl(i), o |-> blk[i].o, st |-> blk[i].st,
                                  e |-> [j \in DOMAIN es |-> IF lvl(i) = wlv + 1 THEN EntNo(kvs, es[j].k, es[j].v) ELSE KeyNo(kvs, es[j].k)],
                                  c |-> [j \in DOMAIN es |-> IF lvl(i) = wlv + 1 THEN 0 ELSE BE(es[j].v, 1, 8)],
                                  at |-> [j \in DOMAIN es |-> es[j].at], ft |-> blk[i].b.ft]],
                            tr |-> end, root |-> root, lv |-> wlv, n |-> Len(kvs), ivl |-> ivl])
Bytes == /\ Is("bytes") /\ UNCHANGED n
         /\ Holds(
            LET end == Len(E.file) - 22
                w == WalkFrom(E.file, 0, end, <<>>)
            IN /\ end >= 0 /\ w.ok
               /\ DecodedOk(E.file, w.bl,
                    IF E.wcodec = 0 THEN [i \in DOMAIN w.bl |-> SubSeq(E.file, w.bl[i].o + 9, w.bl[i].o + 8 + w.bl[i].st)] ELSE E.ub,
                    E.kvs, E.wlv, E.wcodec, E.ivl, end))
(* reads: entry numbers as recovered by `by` *)
Scan == /\ Is("scan") /\ UNCHANGED n
        /\ E.rs = [i \in 1..n |-> IF E.rev THEN n + 1 - i ELSE i]
Open == Is("open") /\ UNCHANGED n /\ E.r = 0 /\ E.len = n /\ E.codec = E.wcodec /\ E.ver = E.wver
(* C13: opening a byte string with this tail *)
O == INSTANCE Open WITH W <- 8, M1 <- MAGIC1, M2 <- MAGIC2, CODECS <- CODECS, MUT <- "none"
OpenB == /\ Is("openb") /\ UNCHANGED n
         /\ LET v == VersionOf(E.tail)
            IN IF v # O!TrailerOf(E.tail) THEN Assert(FALSE, "Format and Open differ on a trailer")
               ELSE IF v = 0 THEN E.r = -2
               ELSE /\ E.r = 0 /\ E.ver = v /\ E.codec = Codec(E.tail, v) /\ E.count = Count(E.tail, v)
                    /\ E.empty = (Count(E.tail, v) = <<0, 0, 0, 0, 0, 0, 0, 0>>)
End == Is("end") /\ UNCHANGED n
Next == Begin \/ File \/ Bytes \/ Scan \/ Open \/ OpenB \/ End
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ PrintT(<<"REJECTED AT LINE", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
