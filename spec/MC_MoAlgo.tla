------------------------------ MODULE MC_MoAlgo -----------------------------
(* Every possible run of the elitist algorithms on a small problem: the      *)
(* population keeps its size and never loses its first front to dominated    *)
(* solutions; progress is monotone.                                          *)
EXTENDS MoAlgo
CONSTANTS X, N, Algs, MaxGen
VARIABLES pop, alg, gen, last
vars == <<pop, alg, gen, last>>
PB == [c |-> <<1, 2>>, d |-> <<0, 1>>, m |-> 4]
D == <<1, 0>>
Ind1(x) == [x |-> x, v |-> Obj(x, PB)]
Inds == {Ind1(x) : x \in 0..X}
Seqs(S, k) == [1..k -> S]
Init == pop \in Seqs(Inds, N) /\ alg \in Algs /\ gen = 0 /\ last = <<>>
\* all sub-multisets of size N of the union, in one order
Subs(all) == {SelectSeq([i \in DOMAIN all |-> <<i, all[i]>>], LAMBDA p : p[1] \in S) : S \in kSubset(N, DOMAIN all)}
Strip(s) == [i \in DOMAIN s |-> s[i][2]]
Next ==
  /\ gen < MaxGen /\ gen' = gen + 1 /\ UNCHANGED alg
  /\ \E off \in Seqs(Inds, N) : \E k \in Subs(pop \o off) :
       /\ KeepsBy(alg, Strip(k), pop \o off, N, D)
       /\ pop' = Strip(k) /\ last' = pop \o off
Spec == Init /\ [][Next]_vars
SizeKept == Len(pop) = N
TrueVectors == TrueTo(pop, PB)
FrontKept == last # <<>> /\ alg # "IBEA" => NoFrontLost(pop, ToSet(last), D)
\* a replacement always has an outcome
Total == \A off \in Seqs(Inds, N) : \E k \in Subs(pop \o off) : KeepsBy(alg, Strip(k), pop \o off, N, D)
=============================================================================
