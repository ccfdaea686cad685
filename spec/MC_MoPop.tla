------------------------------ MODULE MC_MoPop ------------------------------
(* Populations grow one vector at a time; the definitions satisfy the        *)
(* ranking laws the property states in every reachable population.           *)
EXTENDS MoPop
CONSTANTS MaxV, NObj, MaxN
VARIABLES pop, dirs
vars == <<pop, dirs>>
V == [1..NObj -> 0..MaxV]
Init == pop = <<>> /\ dirs \in [1..NObj -> 0..1]
Next == Len(pop) < MaxN /\ UNCHANGED dirs /\ \E v \in V : pop' = Append(pop, v)
Spec == Init /\ [][Next]_vars
NE == pop # <<>>
DepthLaws == NE => LET d == Depth(pop, dirs) IN
  /\ DOMAIN d = DOMAIN pop
  /\ \A i, j \in DOMAIN pop : Dominates(pop[i], pop[j], dirs) => d[i] < d[j]
  /\ \A i, j \in DOMAIN pop : pop[i] = pop[j] => d[i] = d[j]
  /\ \A i \in DOMAIN pop : d[i] > 1 => \E j \in DOMAIN pop : d[j] = d[i] - 1 /\ Dominates(pop[j], pop[i], dirs)
CountLaws == NE => \A nc \in BOOLEAN :
  LET c == CountFitness(pop, nc, dirs)
      r == RankFitness(pop, nc, 0, dirs)
      k == RankingFitness(pop, nc, dirs)
  IN /\ SumSeq(c) = -SumSeq(r)
     /\ \A i \in DOMAIN pop : (r[i] = 0) = (k[i] = 0)
     /\ \A i, j \in DOMAIN pop : Dominates(pop[i], pop[j], dirs) /\ i \notin Copies(pop, nc) => r[i] > r[j] /\ k[i] > k[j]
\* fitness by deleting equals a fresh indicator fitness
IndLaw == Len(pop) > 1 => LET n == Len(pop) q == SubSeq(pop, 1, n - 1) IN
  \A i \in DOMAIN q : IndFitness(pop)[i] + Loss(pop[n], q[i]) = IndFitness(q)[i]
\* the crowding definition is satisfiable and leaves at least two extremes
TieLaw == NE => \A o \in 1..NObj : \A s \in TieOrders(pop, DOMAIN pop, o) : s \in Orders(pop, DOMAIN pop, o)
=============================================================================
