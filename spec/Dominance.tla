----------------------------- MODULE Dominance ------------------------------
(* Comparators over objective vectors and over solutions that carry a        *)
(* fitness and a diversity.  "Cmp(u, v)" reads "u is worse than v".          *)
EXTENDS Pareto

CmpPareto(u, v, dirs) == Dominates(v, u, dirs)
CmpWeak(u, v, dirs) == WeaklyDominates(v, u, dirs)
CmpStrict(u, v, dirs) == StrictlyDominates(v, u, dirs)
\* epsilon dominance with factor num/den: u/eps is no better than v
CmpEps(u, v, dirs, num, den) ==
  \A i \in DOMAIN dirs : IF dirs[i] = 1 THEN u[i] * den >= num * v[i] ELSE u[i] * den <= num * v[i]
RECURSIVE LexLess(_, _)
LexLess(u, v) == IF u = <<>> THEN FALSE
                 ELSE IF Head(u) # Head(v) THEN Head(u) < Head(v) ELSE LexLess(Tail(u), Tail(v))

FitThenDiv(a, b) == a.f < b.f \/ (a.f = b.f /\ a.d < b.d)
DivThenFit(a, b) == a.d < b.d \/ (a.d = b.d /\ a.f < b.f)
Aggregate(a, b, wf, wd) == wf * a.f + wd * a.d < wf * b.f + wd * b.d

\* feasibility first: an infeasible vector is worse than any feasible one
CmpDual(u, fu, v, fv, dirs) == IF fu /\ ~fv THEN FALSE ELSE IF ~fu /\ fv THEN TRUE ELSE CmpPareto(u, v, dirs)

-----------------------------------------------------------------------------
\* algebraic properties of a binary relation R over S
Irreflexive(S, R(_, _)) == \A x \in S : ~R(x, x)
Asymmetric(S, R(_, _)) == \A x, y \in S : R(x, y) => ~R(y, x)
Transitive(S, R(_, _)) == \A x, y, z \in S : R(x, y) /\ R(y, z) => R(x, z)
StrictWeakOrder(S, R(_, _)) ==
  Irreflexive(S, R) /\ Transitive(S, R)
  /\ \A x, y, z \in S : (~R(x, y) /\ ~R(y, x) /\ ~R(y, z) /\ ~R(z, y)) => (~R(x, z) /\ ~R(z, x))
=============================================================================
