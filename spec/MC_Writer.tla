------------------------------ MODULE MC_Writer ------------------------------
(* Every sequence of inserts, sorted or not, into writers of every depth.      *)
EXTENDS Writer, TLC, FiniteSets
CONSTANTS KEYS, MAXN, LVS, BS, MUT     \* MUT: "none", "guard" (order not checked), "late" (cut one entry late)
VARIABLES c, st, ins, fin
vars == <<c, st, ins, fin>>
ESZ == {10, 40}   \* entry sizes; index entries weigh 16
Init == /\ c \in [B : BS, I : {1, 2, 100}, lv : LVS] /\ st = WInit(c) /\ ins = <<>> /\ fin = FALSE
Step(k, sz) == IF MUT = "guard" /\ Refuses(st.data, k) THEN [st EXCEPT !.data = Add(@, k, sz, 0, TRUE)]
               ELSE IF MUT = "late" THEN WInsert([c EXCEPT !.B = @ + 24], st, k, sz, 16, TRUE)
               ELSE WInsert(c, st, k, sz, 16, TRUE)
Insert == /\ ~fin /\ ~st.panic /\ Len(ins) < MAXN
          /\ \E k \in KEYS, sz \in ESZ : /\ st' = Step(k, sz) /\ ins' = Append(ins, <<k, sz>>)
          /\ UNCHANGED <<c, fin>>
Finish == ~fin /\ ~st.panic /\ st' = WFinish(c, st, 16, TRUE) /\ fin' = TRUE /\ UNCHANGED <<c, ins>>
Next == Insert \/ Finish
Spec == Init /\ [][Next]_vars

(* C18 *)
Sorted == \A i \in DOMAIN st.out : Strict(st.out[i].ks)
NoPanicIfSorted == (\A i \in 1..(Len(ins)-1) : ins[i][1] < ins[i+1][1]) => ~st.panic
(* C15 *)
Last(l) == CHOOSE i \in DOMAIN st.out : st.out[i].l = l /\ \A j \in DOMAIN st.out : st.out[j].l = l => j <= i
Cut == \A i \in DOMAIN st.out : st.out[i].l \in CutLevels(c.lv) =>
          /\ NotOver(st.out[i].es, c.I, c.B)
          /\ (fin /\ i = Last(st.out[i].l)) \/ Reached(st.out[i].es, c.I, c.B)
(* nothing pending above the block size *)
Pending == (~fin /\ ~st.panic) => /\ ~Full(c, st.data) \/ st.data.n = 0
                        /\ \A l \in 3..(c.lv + 1) : ~Full(c, st.idx[l]) \/ st.idx[l].n = 0
(* C01 / C09: the finished file holds the inserts in order and every index level *)
(* maps the last key of each child to its place                                   *)
Blocks(l) == SelectSeq([i \in DOMAIN st.out |-> [st.out[i] EXCEPT !.n = i]], LAMBDA b : b.l = l)
Tree == (fin /\ ~st.panic) =>
  /\ Flat([i \in DOMAIN Blocks(c.lv + 1) |-> Blocks(c.lv + 1)[i].ks]) = [i \in DOMAIN ins |-> ins[i][1]]
  /\ Len(Blocks(0)) = 1 /\ st.out[Len(st.out)].l = 0
  /\ (ins # <<>> => \A l \in 0..c.lv :
        /\ Flat([i \in DOMAIN Blocks(l) |-> Blocks(l)[i].kids]) = [i \in DOMAIN Blocks(l + 1) |-> Blocks(l + 1)[i].n]
        /\ Flat([i \in DOMAIN Blocks(l) |-> Blocks(l)[i].ks]) =
             [i \in DOMAIN Blocks(l + 1) |-> Blocks(l + 1)[i].ks[Len(Blocks(l + 1)[i].ks)]])
=============================================================================
