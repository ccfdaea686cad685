------------------------------ MODULE MC_Bounds -----------------------------
(* A coordinate that is moved by any step and repaired either way, next to a  *)
(* second one it is recombined with: it never leaves its bounds.              *)
EXTENDS Bounds
CONSTANTS W, Step
Bnds == {[lo |-> l0, hi |-> h, ml |-> m1, mh |-> m2] : l0 \in -W..W, h \in -W..W, m1 \in BOOLEAN, m2 \in BOOLEAN}
Good == {b \in Bnds : (b.ml /\ b.mh) => b.lo <= b.hi}
VARIABLES b, x, y
vars == <<b, x, y>>
Init == b \in Good /\ x \in {v \in -W..W : InB(b, v)} /\ y \in {v \in -W..W : InB(b, v)}
Mutate == \E d \in -Step..Step : \/ x' = Fold(b, x + d) /\ UNCHANGED <<b, y>>
                                 \/ x' = Trunc(b, x + d) /\ UNCHANGED <<b, y>>
\* arithmetic crossover with a factor in quarters that keeps both children integral and in bounds
Cross == \E f \in -2..6 : LET u == f * x + (4 - f) * y v == (4 - f) * x + f * y IN
   /\ u % 4 = 0 /\ v % 4 = 0 /\ InB(b, u \div 4) /\ InB(b, v \div 4)
   /\ x' = u \div 4 /\ y' = v \div 4 /\ UNCHANGED b
Next == Mutate \/ Cross
Spec == Init /\ [][Next]_vars
Inside == InB(b, x) /\ InB(b, y)
\* folding and truncating are projections that move in-bounds values nowhere
Projection == \A d \in -Step..Step : LET v == x + d IN
   /\ InB(b, Fold(b, v)) /\ InB(b, Trunc(b, v))
   /\ (InB(b, v) => Fold(b, v) = v /\ Trunc(b, v) = v)
   /\ Fold(b, Fold(b, v)) = Fold(b, v)
   /\ Abs(Fold(b, v + 1) - Fold(b, v)) <= 1                    \* continuous
   /\ (b.ml => Fold(b, 2 * b.lo - Fold(b, v)) = Fold(b, v))      \* mirror at the bounds
   /\ (b.mh => Fold(b, 2 * b.hi - Fold(b, v)) = Fold(b, v))
   /\ \A z \in -W..W : InB(b, z) => Abs(v - Trunc(b, v)) <= Abs(v - z)
\* in a cross the sum is conserved
SumKept == [][(b' = b /\ y' # y) => x' + y' = x + y]_vars
Rounding == \A k \in -17..17 : LET r == RoundAway(k, 8) IN 2 * Abs(8 * r - k) <= 8 /\ RoundAway(-k, 8) = -r
Bound == Abs(x) <= 3 * W /\ Abs(y) <= 3 * W
=============================================================================
