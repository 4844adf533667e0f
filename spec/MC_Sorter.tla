------------------------------ MODULE MC_Sorter ------------------------------
EXTENDS Sorter, TLC, Json
CONSTANTS KEYS, UNITS, T, INITCAP, MAXS, MAXN, MUT, EMIT
VARIABLES cfg, st, ins, fin, vol
vars == <<cfg, st, ins, fin, vol>>
Init == /\ cfg \in [T : {T}, realloc : BOOLEAN, max : MAXS, init : {INITCAP}]
        /\ st = SInit(cfg) /\ ins = <<>> /\ fin = FALSE /\ vol = 0
SumU(b) == LET RECURSIVE f(_) f(j) == IF j = 0 THEN 0 ELSE b[j].u - 1 + f(j - 1) IN f(Len(b))
Insert == /\ ~fin /\ Len(ins) < MAXN
          /\ \E k \in KEYS, u \in UNITS :
               LET e == [k |-> k, i |-> Len(ins) + 1, u |-> u]
               IN /\ st' = SInsert(cfg, st, e, MUT) /\ ins' = Append(ins, e)
                  /\ vol' = SumU(st'.buf)
          /\ UNCHANGED <<cfg, fin>>
Finish == /\ ~fin /\ st' = SFinish(st, MUT) /\ fin' = TRUE /\ UNCHANGED <<cfg, ins, vol>>
          /\ (EMIT => PrintT(ToJson([realloc |-> cfg.realloc, max |-> cfg.max, T |-> T,
                                     path |-> [j \in DOMAIN ins |-> <<ins[j].k, ins[j].u>>]])))
Next == Insert \/ Finish
Spec == Init /\ [][Next]_vars
(* C07 *)
Output == fin => SOutput(st) = Expected(ins)
Runs == \A j \in DOMAIN st.chunks : \A i \in 1..(Len(st.chunks[j]) - 1) : st.chunks[j][i].k < st.chunks[j][i + 1].k
(* C08, for entries of at most a quarter of the budget *)
Small == \A j \in DOMAIN ins : 4 * (ins[j].u - 1) <= T
Volume == Small => vol <= IF cfg.realloc THEN 2 * T ELSE T
Live == /\ st.maxlive <= cfg.max + 2
        /\ Len(st.chunks) <= cfg.max + 1
(* C17: bounds grow from the front, bytes from the back: they never meet *)
Buffer == /\ st.used = SumU(st.buf) + Len(st.buf)
          /\ st.used <= st.cap
View == <<cfg, [st EXCEPT !.maxlive = 0], fin, Len(ins)>>
=============================================================================
