------------------------------ MODULE MC_Dmls -------------------------------
(* All runs of the local search on bit strings of length K, from any start.  *)
EXTENDS Dmls
CONSTANTS K, Kinds, Nums, Pbs, Reps
VARIABLES A, kind, num, pb, replace, seen
vars == <<A, kind, num, pb, replace, seen>>
Flip(x, k) == IF (x \div 2^k) % 2 = 1 THEN x - 2^k ELSE x + 2^k
Nbs(x) == {Flip(x, k) : k \in 0..(K - 1)}
D == <<0, 1>>
\* problems: coefficients of the two objectives
PbOf(i) == CASE i = 1 -> [c |-> <<1, 1>>, d |-> <<0, 0>>, m |-> 8]
             [] i = 2 -> [c |-> <<3, 5>>, d |-> <<1, 0>>, m |-> 7]
             [] i = 3 -> [c |-> <<2, 3>>, d |-> <<0, 2>>, m |-> 4]
Init == /\ kind \in Kinds /\ num \in Nums /\ pb \in {PbOf(i) : i \in Pbs} /\ replace \in Reps
        /\ \E x, y \in 0..(2^K - 1) : A = UpdSeq({}, <<Mem(x, pb), Mem(y, pb)>>, D, replace) /\ seen = {Mem(x, pb), Mem(y, pb)}
\* the orders in which the neighbours may be presented in a round (as bit
\* positions), cut as the explorer does
Orders == SetToSeqs(0..(K - 1))
Explore(x, p) == LET s == CHOOSE a \in A : a.x = x
                     nb == [i \in DOMAIN p |-> Flip(x, p[i])]
                 IN [x |-> x, nb |-> SubSeq(nb, 1, Looked(kind, 2, s, nb, pb, D))]
Next ==
  /\ ~AllVisited(A)
  /\ UNCHANGED <<kind, num, pb, replace>>
  /\ \E S \in SUBSET Unvisited(A), p \in Orders :
     /\ Cardinality(S) = (IF num = 0 THEN Cardinality(Unvisited(A)) ELSE MinOf(num, Cardinality(Unvisited(A))))
     /\ LET xs == SetToSeq({a.x : a \in S})
            ex == [i \in DOMAIN xs |-> Explore(xs[i], p)]
        IN /\ A' = RoundEnd(A, kind, ex, K, pb, D, replace)
           /\ seen' = seen \cup UNION {{Mem(ex[i].nb[j], pb) : j \in DOMAIN ex[i].nb} : i \in DOMAIN ex}
Spec == Init /\ [][Next]_vars
ClosedAlways == Closed(A, Nbs, pb, D)
NonDominated == NonDom(A, D)
NeverLost == \A m \in seen : \E a \in A : WeaklyDominates(a.v, m.v, D)
SeenOnly == \A a \in A : \E m \in seen : m.x = a.x
=============================================================================
