------------------------------- MODULE Pareto -------------------------------
(* Objective vectors and dominance.  dirs[i] = 1: objective i is minimised,  *)
(* dirs[i] = 0: maximised.                                                   *)
EXTENDS Common

Better(a, b, d) == IF d = 1 THEN a < b ELSE a > b
WeaklyDominates(u, v, dirs) == \A i \in DOMAIN dirs : ~Better(v[i], u[i], dirs[i])
Dominates(u, v, dirs) == WeaklyDominates(u, v, dirs) /\ \E i \in DOMAIN dirs : Better(u[i], v[i], dirs[i])
StrictlyDominates(u, v, dirs) == \A i \in DOMAIN dirs : Better(u[i], v[i], dirs[i])

\* non-dominated subset of a set of vectors
NDFront(S, dirs) == {u \in S : ~ \E v \in S : Dominates(v, u, dirs)}
MutuallyNonDominated(S, dirs) == \A u, v \in S : ~Dominates(u, v, dirs)
=============================================================================
