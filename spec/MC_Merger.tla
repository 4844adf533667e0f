------------------------------ MODULE MC_Merger ------------------------------
(* Every overlap pattern of N sources over KEYS.  Values name their entry.     *)
EXTENDS Merger, TLC, Json, SequencesExt
CONSTANTS N, K, MUT, EMIT
VARIABLES srcs, pos, out
vars == <<srcs, pos, out>>
Src(s, S) == LET q == SetToSortSeq(S, <) IN [ks |-> q, vs |-> [i \in DOMAIN q |-> 100 * s + q[i]]]
Init == /\ \E n \in 0..N : \E f \in [1..n -> SUBSET (1..K)] : srcs = [s \in 1..n |-> Src(s, f[s])]
        /\ pos = [s \in DOMAIN srcs |-> 0]
        /\ out = <<>>
        /\ (EMIT => PrintT(ToJson([srcs |-> [s \in DOMAIN srcs |-> srcs[s].ks]])))
Next == /\ Alive(srcs, pos) # {} /\ Len(out) < N * K + 1
        /\ LET h == HeapStep(srcs, pos, MUT) IN pos' = h.pos /\ out' = Append(out, [k |-> h.k, vs |-> h.vs])
        /\ UNCHANGED srcs
Spec == Init /\ [][Next]_vars
Expected == LET q == SetToSortSeq(UnionKeys(srcs), <) IN [i \in DOMAIN q |-> [k |-> q[i], vs |-> Values(srcs, q[i])]]
Prefix == Len(out) <= Len(Expected) /\ out = SubSeq(Expected, 1, Len(out))
Complete == Alive(srcs, pos) = {} => out = Expected
(* the definitions used on traces agree with the ones by set *)
Agree == Alive(srcs, pos) # {} =>
  LET k == NextKey(srcs, pos) H == HoldersAt(srcs, pos, k)
  IN HeapStep(srcs, pos, "none").k = k /\ HeapStep(srcs, pos, "none").pos = Advance(pos, H)
     /\ HeadsFrom(srcs, pos, H, 1) = HeapStep(srcs, pos, "none").vs
=============================================================================
