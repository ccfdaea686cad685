----------------------------- MODULE MC_PopStat -----------------------------
(* A population under queries: sorting is done by exchanging any two         *)
(* neighbours in the wrong order, so every fixpoint is a ranking; best,      *)
(* worst, n-th and the moments do not depend on the order.                   *)
EXTENDS PopStat
CONSTANTS N, V
VARIABLES p, dir, start
vars == <<p, dir, start>>
Init == dir \in {0, 1} /\ (\E f \in [1..N -> 0..V] : p = [i \in 1..N |-> <<i, f[i]>>]) /\ start = p
Shuffle == \E i, j \in 1..N : i < j /\ p' = SwapAt(p, i, j) /\ UNCHANGED <<dir, start>>
Sort1 == \E i \in 1..(N - 1) : PBetter(p[i + 1][2], p[i][2], dir) /\ p' = SwapAt(p, i, i + 1) /\ UNCHANGED <<dir, start>>
Next == Shuffle \/ Sort1
Spec == Init /\ [][Next]_vars
Members == SameMulti(p, start)
Fix == (~ENABLED Sort1) <=> InOrder(p, dir)
BestWorst == /\ BestOf(p, dir) = BestOf(start, dir) /\ WorstOf(p, dir) = WorstOf(start, dir)
             /\ \A i \in 1..N : ~PBetter(p[i][2], BestOf(p, dir), dir) /\ ~PBetter(WorstOf(p, dir), p[i][2], dir)
SortedIsNth == InOrder(p, dir) => \A n \in 0..(N - 1) : IsNth(p, n, dir)
Moments == SumSeq(Fits(p)) = SumSeq(Fits(start)) /\ Cov2(Fits(p), Fits(p)) = Cov2(Fits(start), Fits(start)) /\ Cov2(Fits(p), Fits(p)) >= 0
Mirror == Ranked(p, dir) = RankedF([i \in 1..N |-> 0 - Fits(p)[i]], 1 - dir) \/ \A i \in 1..N : Ranked(p, dir)[i] = 0 - RankedF([j \in 1..N |-> 0 - Fits(p)[j]], 1 - dir)[i]
DualTotal == \A a, b \in (0..V) \X {0, 1} : (a = b \/ DualLess(a, b, dir) \/ DualLess(b, a, dir)) /\ ~(DualLess(a, b, dir) /\ DualLess(b, a, dir)) /\ (a[2] > b[2] => DualLess(b, a, dir))
=============================================================================
