--------------------------- MODULE MC_Permutation ---------------------------
(* Two individuals under any sequence of permutation operators.              *)
EXTENDS Permutation
CONSTANT N
S == 0..(N - 1)
Perms == {p \in [1..N -> S] : NoDup(p)}
VARIABLES p, q, last
vars == <<p, q, last>>
Init == p \in Perms /\ q \in Perms /\ last = <<"init", p, q>>
Mutate(name, T) == \E r \in T : p' = r /\ q' = q /\ last' = <<name, p, q>>
Cross(name, T) == \E r \in T : p' = r[1] /\ q' = r[2] /\ last' = <<name, p, q>>
Next == \/ Mutate("swap", Swaps(p)) \/ Mutate("shift", Shifts(p)) \/ Mutate("twoopt", TwoOpts(p))
        \/ Cross("ox", OXs(p, q)) \/ Cross("pmx", PMXs(p, q))
Spec == Init /\ [][Next]_vars
\* nothing lost, nothing duplicated
Conserved == IsPerm(p, S) /\ IsPerm(q, S)
Old == last[2]
Moved == {i \in 1..N : p[i] # Old[i]}
\* what each operator promises
SwapTwo == last[1] = "swap" => (Cardinality(Moved) = 2 /\ IsSwaps(Old, p, 1) /\ IsSwaps(Old, p, 3) /\ ~IsSwaps(Old, p, 2))
ShiftOne == last[1] = "shift" => \E x \in S : SelectSeq(p, LAMBDA y : y # x) = SelectSeq(Old, LAMBDA y : y # x)
TwoOptSegment == last[1] = "twoopt" => (\E i, j \in 1..N : i < j /\ Moved \subseteq i..j /\ SubSeq(p, i, j) = Reverse(SubSeq(Old, i, j)))
\* a 2-opt is its own inverse, and so is a swap
Involution == (last[1] = "twoopt" => Old \in TwoOpts(p)) /\ (last[1] = "swap" => Old \in Swaps(p))
\* identical parents of a partially mapped crossover are reproduced
PMXSame == (last[1] = "pmx" /\ last[2] = last[3]) => (p = Old /\ q = Old)
PMXPositions == last[1] = "pmx" => \A i \in 1..N : (p[i] # Old[i]) => (p[i] = last[3][i] \/ \E j \in 1..N : Old[i] = last[3][j])
CONSTRAINTBound == TLCGet("level") < 3
=============================================================================
