------------------------------- MODULE MoPop --------------------------------
(* Fitness and diversity of whole populations from their objective vectors.  *)
(* A population is a sequence of vectors; results are sequences of the same  *)
(* length.  Reals are fixed-point integers with scale SC.                    *)
EXTENDS Pareto

SC == 100000
\* rounding slack of n accumulated fixed-point operations
Near(a, b, n) == Abs(a - b) <= n

-----------------------------------------------------------------------------
\* ---- dominance depth: the front an individual belongs to (1 = best)
FrontOf(pop, Rest, dirs) == {i \in Rest : ~ \E j \in Rest : Dominates(pop[j], pop[i], dirs)}
RECURSIVE DepthR(_, _, _, _)
DepthR(pop, Rest, k, dirs) ==
  IF Rest = {} THEN <<>>
  ELSE LET F == FrontOf(pop, Rest, dirs)
       IN [i \in F |-> k] @@ DepthR(pop, Rest \ F, k + 1, dirs)
Depth(pop, dirs) == DepthR(pop, DOMAIN pop, 1, dirs)
MaxRank(d) == Max({d[i] : i \in DOMAIN d})
DepthFitness(pop, dirs) == LET d == Depth(pop, dirs) IN [i \in DOMAIN pop |-> MaxRank(d) - d[i]]

\* with equivalent solutions sent to the last front: exactly one of each group
\* of equal vectors keeps its rank, the others get the rank Len(pop)
IsDepthNoEquiv(fit, pop, dirs) ==
  LET d == Depth(pop, dirs)
      n == Len(pop)
      dup == \E i, j \in DOMAIN pop : i # j /\ pop[i] = pop[j]
      top == IF dup THEN n ELSE MaxRank(d)
  IN \A i \in DOMAIN pop :
       LET grp == {j \in DOMAIN pop : pop[j] = pop[i]}
           kept == {j \in grp : fit[j] = top - d[i]}
       IN /\ fit[i] \in {top - d[i], top - n}
          /\ IF d[i] = n THEN TRUE ELSE Cardinality(kept) = 1

\* ---- counting fitnesses over archive \o population; nocopy: every vector
\* equal to an earlier one counts as dominated by all originals
Copies(all, nocopy) == IF nocopy THEN {j \in DOMAIN all : \E i \in 1..(j - 1) : all[i] = all[j]} ELSE {}
Beats(all, i, j, C, dirs) ==
  IF i \in C THEN FALSE ELSE IF j \in C THEN TRUE ELSE Dominates(all[i], all[j], dirs)
CountOf(all, i, C, dirs) == Cardinality({j \in DOMAIN all : Beats(all, i, j, C, dirs)})
RankOf(all, i, C, dirs) == Cardinality({j \in DOMAIN all : Beats(all, j, i, C, dirs)})
CountFitness(all, nocopy, dirs) == LET C == Copies(all, nocopy) IN [i \in DOMAIN all |-> CountOf(all, i, C, dirs)]
RankFitness(all, nocopy, start, dirs) == LET C == Copies(all, nocopy) IN [i \in DOMAIN all |-> -(RankOf(all, i, C, dirs) + start)]
RankingFitness(all, nocopy, dirs) ==
  LET C == Copies(all, nocopy)
      cnt == [i \in DOMAIN all |-> CountOf(all, i, C, dirs)]
  IN [i \in DOMAIN all |-> -SumFun(cnt, {j \in DOMAIN all : Beats(all, j, i, C, dirs)})]

\* ---- indicator based fitness with indicator value I(u, v) = n: loss 2^-n (scale 1024)
Ind(u, v) == (SumSeq([i \in DOMAIN u |-> 3 * i * u[i]]) + SumSeq([i \in DOMAIN v |-> (2 * i + 1) * v[i]])) % 8
Loss(u, v) == 2 ^ (10 - Ind(u, v))
IndFitness(pop) == [i \in DOMAIN pop |-> -SumFun([j \in DOMAIN pop |-> Loss(pop[j], pop[i])], DOMAIN pop \ {i})]

\* ---- weighted aggregation
AggFitness(u, w, dirs) == SumSeq([i \in DOMAIN dirs |-> IF dirs[i] = 1 THEN -w[i] * u[i] ELSE w[i] * u[i]])

-----------------------------------------------------------------------------
\* ---- crowding distance of the members of F (a set of indices).  An ordering
\* of F along an objective is a sequence of indices; ties may be ordered freely.
Orders(pop, F, o) ==
  {s \in [1..Cardinality(F) -> F] : (\A a, b \in DOMAIN s : a # b => s[a] # s[b])
       /\ \A a \in 1..(Cardinality(F) - 1) : pop[s[a]][o] <= pop[s[a + 1]][o]}
\* orders built tie group by tie group (avoids enumerating all sequences)
RECURSIVE TieOrders(_, _, _)
TieOrders(pop, F, o) ==
  IF F = {} THEN {<<>>}
  ELSE LET m == Min({pop[i][o] : i \in F})
           G == {i \in F : pop[i][o] = m}
       IN {p \o q : p \in SetToSeqs(G), q \in TieOrders(pop, F \ G, o)}
Extreme(s, i) == s[1] = i \/ s[Len(s)] = i
PosIn(s, i) == CHOOSE k \in DOMAIN s : s[k] = i
Gap(pop, s, i, o) ==
  LET k == PosIn(s, i)
      r == pop[s[Len(s)]][o] - pop[s[1]][o]
      \* no spread along this objective: every gap is nil
  IN IF r = 0 THEN 0 ELSE ((pop[s[k + 1]][o] - pop[s[k - 1]][o]) * SC) \div r
INF == 2147483000
\* div is the crowding of F under the orders os (one per objective)
CrowdOK(pop, F, os, div) ==
  \A i \in F :
    IF Cardinality(F) <= 2 \/ \E o \in DOMAIN os : Extreme(os[o], i) THEN div[i] = INF
    ELSE Near(div[i], SumSeq([o \in DOMAIN os |-> Gap(pop, os[o], i, o)]), Len(os) + 1)
RECURSIVE CrowdEx(_, _, _, _, _)
CrowdEx(pop, F, o, os, div) ==
  IF o > Len(pop[1]) THEN CrowdOK(pop, F, os, div)
  ELSE \E s \in TieOrders(pop, F, o) :
          \* prune: the ends of this order must be extreme
          /\ div[s[1]] = INF /\ div[s[Len(s)]] = INF
          /\ CrowdEx(pop, F, o + 1, Append(os, s), div)
IsCrowding(pop, F, div) ==
  IF Cardinality(F) <= 2 THEN \A i \in F : div[i] = INF ELSE CrowdEx(pop, F, 1, <<>>, div)

\* ---- distances
Manhattan(u, v) == SumSeq([i \in DOMAIN u |-> Abs(u[i] - v[i])])
SqEuclid(u, v) == SumSeq([i \in DOMAIN u |-> (u[i] - v[i]) * (u[i] - v[i])])

\* ---- sharing with niche radius r and exponent a in {1, 2}: 1 - (d/r)^a inside the niche
Share(d, r, a) == IF d >= r THEN 0 ELSE IF a = 1 THEN SC - (d * SC) \div r ELSE SC - (d * d * SC) \div (r * r)
Similarity(pop, i, S, r, a) == SumFun([j \in DOMAIN pop |-> Share(Manhattan(pop[i], pop[j]), r, a)], S)
SharingOK(pop, fit, byFront, r, a, div) ==
  LET peers(i) == IF byFront THEN {j \in DOMAIN pop : fit[j] = fit[i]} ELSE DOMAIN pop
      sim == [i \in DOMAIN pop |-> Similarity(pop, i, peers(i), r, a)]
      top == Max({sim[i] : i \in DOMAIN pop})
  IN \A i \in DOMAIN pop : Near(div[i], top - sim[i], 2 * Len(pop) + 2)

\* ---- k-th nearest neighbour density -1/(2 + d_k) over all = population \o archive
SortedInts(S) == SortSeq(S, LAMBDA x, y : x < y)
KthDist(all, i, k) ==
  LET ds == SortedInts([j \in 1..(Len(all) - 1) |-> Manhattan(all[i], all[IF j < i THEN j ELSE j + 1])])
  IN ds[MinOf(k, Len(ds))]
NearestOK(all, k, div) == \A i \in DOMAIN all : LET q == 2 + KthDist(all, i, k) IN Abs(div[i] * q + SC) <= q
=============================================================================
