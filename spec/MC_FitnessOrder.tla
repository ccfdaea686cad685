--------------------------- MODULE MC_FitnessOrder --------------------------
(* The order is a strict weak order in both directions, feasibility comes      *)
(* first, reversing the direction reverses the order within a class, and every  *)
(* population has a best, a worst and an n-th element.                          *)
EXTENDS FitnessOrder
CONSTANTS V, N
VARIABLES dir, pop
vars == <<dir, pop>>
F == (0..V) \X (0..1)
Init == dir \in {1, -1} /\ pop = <<>>
Next == Len(pop) < N /\ dir' = dir /\ \E x \in F : pop' = Append(pop, <<x[1], x[2], Len(pop) + 1>>)
Spec == Init /\ [][Next]_vars
StrictWeak == \A i, j, k \in Ix(pop) : LET a == Fit(pop[i]) b == Fit(pop[j]) c == Fit(pop[k]) IN
  /\ ~Worse(a, a, dir) /\ (Worse(a, b, dir) => ~Worse(b, a, dir))
  /\ ((Worse(a, b, dir) /\ Worse(b, c, dir)) => Worse(a, c, dir))
  /\ ((Tied(a, b, dir) /\ Tied(b, c, dir)) => Tied(a, c, dir))
  /\ (Tied(a, b, dir) => a = b)
FeasibleFirst == \A i, j \in Ix(pop) : (pop[i][2] = 1 /\ pop[j][2] = 0) => Worse(Fit(pop[j]), Fit(pop[i]), dir)
Mirrored == \A i, j \in Ix(pop) : pop[i][2] = pop[j][2] => (Worse(Fit(pop[i]), Fit(pop[j]), dir) <=> Worse(Fit(pop[j]), Fit(pop[i]), -dir))
Exist == pop # <<>> => (\E i \in Ix(pop) : IsBestOf(pop[i], pop, dir)) /\ (\E i \in Ix(pop) : IsWorstOf(pop[i], pop, dir)) /\ \A n \in 0..(Len(pop) - 1) : \E i \in Ix(pop) : IsNth(pop[i], pop, n, dir)
Orders == {s \in [Ix(pop) -> Ix(pop)] : \A i, j \in Ix(pop) : i # j => s[i] # s[j]}
SortConsistent == \A s \in Orders : LET q == [i \in Ix(pop) |-> pop[s[i]]] IN
  BestFirst(q, dir) => /\ SortedAs(pop, q, dir) /\ (pop # <<>> => (IsBestOf(q[1], pop, dir) /\ IsWorstOf(q[Len(q)], pop, dir)))
                       /\ \A n \in Ix(q) : IsNth(q[n], pop, n - 1, dir)
Halves == Len(FeasibleOf(pop)) + Len(InfeasibleOf(pop)) = Len(pop)
=============================================================================
