---------------------------- MODULE MC_Dominance ----------------------------
(* The relations have the algebraic properties claimed, for all vectors over *)
(* a small grid and all directions.  State: the directions under scrutiny.   *)
EXTENDS Dominance
CONSTANTS MaxV, NObj
VARIABLE dirs
V == [1..NObj -> 0..MaxV]
P == [f : 0..MaxV, d : 0..MaxV]
Init == dirs \in [1..NObj -> 0..1]
Next == UNCHANGED dirs
Spec == Init /\ [][Next]_dirs
R(u, v) == CmpPareto(u, v, dirs)
W(u, v) == CmpWeak(u, v, dirs)
S(u, v) == CmpStrict(u, v, dirs)
ParetoOrder == Irreflexive(V, R) /\ Asymmetric(V, R) /\ Transitive(V, R)
StrictOrder == Irreflexive(V, S) /\ Asymmetric(V, S) /\ Transitive(V, S)
WeakOrder == Transitive(V, W) /\ \A u \in V : W(u, u)
Chain == \A u, v \in V : (S(u, v) => R(u, v)) /\ (R(u, v) => W(u, v)) /\ (W(u, v) /\ u # v => R(u, v))
EpsOne == \A u, v \in V : CmpEps(u, v, dirs, 1, 1) = W(u, v)
FD == StrictWeakOrder(P, FitThenDiv) /\ StrictWeakOrder(P, DivThenFit)
AG == \A wf, wd \in 0..2 : LET Q(a, b) == Aggregate(a, b, wf, wd) IN StrictWeakOrder(P, Q)
LX == StrictWeakOrder(V, LexLess)
\* every finite non-empty set of vectors has a non-dominated front that weakly dominates it
FrontCovers == \A X \in SUBSET V : Cardinality(X) \in 1..3 =>
   \A x \in X : \E y \in NDFront(X, dirs) : WeaklyDominates(y, x, dirs)
=============================================================================
