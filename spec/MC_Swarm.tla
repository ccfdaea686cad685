------------------------------ MODULE MC_Swarm ------------------------------
(* Every landscape and every flight on a small line.                         *)
EXTENDS Swarm
CONSTANTS N, K, Kind, Places, V, Dir
VARIABLES land, pos, mem, nb, turn
vars == <<land, pos, mem, nb, turn>>
P == 0..(N - 1)
H == 0..(NbCount(Kind, N, K) - 1)
At(p) == <<p, land[p]>>
Init == /\ land \in [Places -> 0..V] /\ pos \in [P -> Places] /\ mem = [i \in P |-> At(pos[i])]
        /\ nb \in [H -> {mem[i] : i \in P}] /\ \A h \in H : IsBestOf(nb[h], mem, Nb(Kind, N, K, h), Dir)
        /\ turn = 0
Step == \E q \in Places :
  /\ pos' = [pos EXCEPT ![turn] = q] /\ mem' = [mem EXCEPT ![turn] = Remember(@, At(q), Dir)]
  /\ nb' = [h \in H |-> IF turn \in Nb(Kind, N, K, h) THEN Remember(nb[h], At(q), Dir) ELSE nb[h]]
  /\ turn' = (turn + 1) % N /\ UNCHANGED land
Spec == Init /\ [][Step]_vars
\* incremental upkeep equals the definition
NbIsBest == \A h \in H : IsBestOf(nb[h], mem, Nb(Kind, N, K, h), Dir)
Truthful == \A i \in P : mem[i] = At(mem[i][1]) /\ ~PBetter(land[pos[i]], mem[i][2], Dir)
Covered == \A i \in P : \E h \in H : i \in Nb(Kind, N, K, h)
Homely == \A i \in P : Home(Kind, N, K, i) \in H /\ i \in Nb(Kind, N, K, Home(Kind, N, K, i))
Improving == [][\A i \in P : ~PBetter(mem[i][2], mem'[i][2], Dir)]_vars
=============================================================================
