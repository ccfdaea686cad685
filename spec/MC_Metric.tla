------------------------------ MODULE MC_Metric -----------------------------
(* A front grows point by point: the volume equals the number of covered     *)
(* cells, ignores dominated points, and the indicators obey their laws.      *)
EXTENDS Metric
CONSTANTS R, NObj, MaxN
VARIABLES A, dirs
vars == <<A, dirs>>
V == [1..NObj -> 0..R]
Init == A = {} /\ dirs \in [1..NObj -> 0..1]
Next == Cardinality(A) < MaxN /\ UNCHANGED dirs /\ \E v \in V : A' = A \cup {v}
Spec == Init /\ [][Next]_vars
Ref2 == [i \in 1..NObj |-> IF dirs[i] = 1 THEN 2 * R + 2 ELSE -2]
\* Sizes are in half units: cells are counted in whole ones
Half(S) == {[i \in DOMAIN b |-> b[i] \div 2] : b \in S}
VolIsCells == UnionVol(Half({SizesRef(v, Ref2, dirs) : v \in A})) = Cardinality(Cells(Half({SizesRef(v, Ref2, dirs) : v \in A}), R + 1, NObj))
VolOfFront == HVRef(A, Ref2, dirs) = HVRef(NDFront(A, dirs), Ref2, dirs)
EpsLaw == A # {} => \A v \in V : (EpsAdd(A, {v}, dirs) <= 0) = (\E a \in A : WeaklyDominates(a, v, dirs))
\* adding a point increases the volume iff no point weakly dominates it
Grow == [][A # {} => \A v \in A' \ A : (HVRef(A', Ref2, dirs) > HVRef(A, Ref2, dirs)) = ~(\E a \in A : WeaklyDominates(a, v, dirs))]_vars
BinLaw == \A a, b \in V : LET lo == [i \in 1..NObj |-> 0] hi == [i \in 1..NObj |-> R] x == HVBin(a, b, lo, hi, 4, dirs)
   IN /\ Dominates(a, b, dirs) => x < 0
      /\ Dominates(b, a, dirs) => x > 0
      /\ a = b => x = 0
ASSUME R > 0
=============================================================================
