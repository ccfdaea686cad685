---------------------------- MODULE MC_BitString ----------------------------
(* Two strings under any sequence of bit-string operators.                   *)
EXTENDS BitString
CONSTANTS N, M      \* lengths of the two individuals
Strings(n) == [1..n -> {0, 1}]
VARIABLES p, q, last
vars == <<p, q, last>>
Init == p \in Strings(N) /\ q \in Strings(M) /\ last = <<"init", p, q>>
Mut(name, T) == \E r \in T : p' = r /\ q' = q /\ last' = <<name, p, q>>
Cross(name, T) == \E r \in T : p' = r[1] /\ q' = r[2] /\ last' = <<name, p, q>>
Next == \/ Mut("one", {FlipAt(p, {i}) : i \in 1..N})
        \/ Mut("two", {FlipAt(p, S) : S \in kSubset(2, 1..N)})
        \/ Mut("inv", {r \in Strings(N) : IsInversion(p, r)})
        \/ Mut("next", {r \in Strings(N) : IsNext(p, r)})
        \/ Mut("prev", {r \in Strings(N) : IsPrev(p, r)})
        \/ Cross("1pt", OnePts(p, q)) \/ Cross("2pt", NPts(p, q, 2)) \/ Cross("9pt", NPts(p, q, 9)) \/ Cross("gene", Genes(p, q, 2, 1))
Spec == Init /\ [][Next]_vars
Old == last[2]
Lengths == Len(p) = N /\ Len(q) = M
\* crossovers neither create nor lose alleles at a locus
Alleles == (last[1] \in {"1pt", "2pt", "9pt", "gene"}) => Locuswise(last[2], last[3], p, q)
Counts == (last[1] = "one" => IsFlip(Old, p, 1) /\ IsFlips(Old, p, 3)) /\ (last[1] = "two" => IsFlip(Old, p, 2) /\ ~IsFlips(Old, p, 1) /\ ~IsFlips(Old, p, 3))
\* an inversion keeps the number of ones, and is its own inverse
Inversion == last[1] = "inv" => (SumSeq(p) = SumSeq(Old) /\ IsInversion(p, Old))
\* successor and predecessor undo each other and differ only in a suffix
Counting == /\ (last[1] = "next" => IsPrev(p, Old)) /\ (last[1] = "prev" => IsNext(p, Old))
            /\ (last[1] = "next" => \E k \in 1..N : Diff(Old, p) = k..N)
\* a one-point crossover is one of the n-point ones with the roles exchanged
OneIsN == (last[1] = "1pt" /\ N = M) => <<q, p>> \in (NPts(last[2], last[3], 1) \cup {<<last[3], last[2]>>})
\* crossing a string with itself changes nothing
Clone == (last[1] \in {"1pt", "2pt", "9pt", "gene"} /\ last[2] = last[3]) => (p = Old /\ q = Old)
Bound == TLCGet("level") < 3
=============================================================================
