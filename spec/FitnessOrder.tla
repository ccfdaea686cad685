----------------------------- MODULE FitnessOrder ----------------------------
(* Kinds of fitness.  A fitness is a pair <<v, f>>: a value and whether it is   *)
(* feasible (1) or not (0); kinds without feasibility always have f = 1.  A      *)
(* feasible one is better than any infeasible one, and among equals the value     *)
(* decides, in the direction of the kind: dir = 1 maximises, dir = -1 minimises.   *)
EXTENDS Integers, Sequences, FiniteSets, Common
Worse(a, b, dir) == a[2] < b[2] \/ (a[2] = b[2] /\ dir * a[1] < dir * b[1])
Tied(a, b, dir) == ~Worse(a, b, dir) /\ ~Worse(b, a, dir)

\* a population: sequence of <<v, f, id>>
Fit(x) == <<x[1], x[2]>>
BestFirst(s, dir) == \A i, j \in Ix(s) : i < j => ~Worse(Fit(s[i]), Fit(s[j]), dir)
SortedAs(p, s, dir) == IsPermOf(p, s) /\ BestFirst(s, dir)
IsBestOf(x, p, dir) == (\E i \in Ix(p) : p[i] = x) /\ \A i \in Ix(p) : ~Worse(Fit(x), Fit(p[i]), dir)
IsWorstOf(x, p, dir) == (\E i \in Ix(p) : p[i] = x) /\ \A i \in Ix(p) : ~Worse(Fit(p[i]), Fit(x), dir)
\* x could be the element with exactly n elements before it in best-first order
IsNth(x, p, n, dir) ==
  /\ Cardinality({i \in Ix(p) : Worse(Fit(x), Fit(p[i]), dir)}) <= n
  /\ Cardinality({i \in Ix(p) : ~Worse(Fit(p[i]), Fit(x), dir)}) > n
FeasibleOf(p) == SelectSeq(p, LAMBDA x : x[2] = 1)
InfeasibleOf(p) == SelectSeq(p, LAMBDA x : x[2] = 0)

\* arithmetic keeps the result feasible only if both operands are
Combine(a, b, op) == <<IF op = "add" THEN a[1] + b[1] ELSE IF op = "sub" THEN a[1] - b[1] ELSE a[1] \div b[1], MinOf(a[2], b[2])>>
==============================================================================
