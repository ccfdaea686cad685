------------------------------- MODULE MoAlgo -------------------------------
(* Generations of multi-objective evolutionary algorithms.  An individual is *)
(* a record with genotype x and objective vector v; selection of parents and *)
(* variation are free (any evaluated offspring), what is specified is what   *)
(* the replacement may keep, for each algorithm, and the archive.            *)
EXTENDS MoPop

\* the problem: objective i of genotype x
Obj(x, pb) == [i \in DOMAIN pb.c |-> (x * pb.c[i] + pb.d[i]) % pb.m]
TrueTo(pop, pb) == \A i \in DOMAIN pop : pop[i].v = Obj(pop[i].x, pb)
Vs(pop) == [i \in DOMAIN pop |-> pop[i].v]

-----------------------------------------------------------------------------
\* ---- keep the best by a key: kept is a possible outcome of keeping the n
\* best of all, ties free.  Leq(a, b): a is at most as good as b.  Individuals
\* are compared through the key sequence (same indices as all).
KeepsBest(kept, all, key, n, Less(_, _)) ==
  \* individuals that are equal records have equal keys: the multiset of kept
  \* keys is determined up to ties
  /\ Len(kept) = n
  /\ MultiIn(kept, all)
  /\ LET K(r) == key[CHOOSE i \in DOMAIN all : all[i] = r]
         left == {r \in ToSet(all) : CountIn(r, kept) < CountIn(r, all)}
     IN \A r \in left : \A k \in ToSet(kept) : ~Less(K(k), K(r))

LexLess2(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

\* ---- number of members of the same class with the same vector
Twins(all, cls, i) == Cardinality({j \in DOMAIN all : cls[j] = cls[i] /\ all[j].v = all[i].v})
\* NSGA: dominance depth, then sharing with a niche smaller than 1 between
\* integer vectors (only equal vectors of the same front share)
KeyNSGA(all, dirs) ==
  LET f == DepthFitness(Vs(all), dirs) IN [i \in DOMAIN all |-> <<f[i], -Twins(all, f, i)>>]
\* MOGA: dominance rank with copies of a vector ranked after every original,
\* then the same sharing: originals compete by rank, copies by their number
KeepsMOGA(kept, all, n, dirs) ==
  LET V == {all[i].v : i \in DOMAIN all}
      KV == {kept[i].v : i \in DOMAIN kept}
      rank(v) == Cardinality({w \in V : Dominates(w, v, dirs)})
      copies(s, v) == CountIn(v, Vs(s)) - 1
  IN /\ Len(kept) = n /\ MultiIn(kept, all)
     /\ IF Cardinality(V) >= n
        THEN Cardinality(KV) = n /\ \A u \in V \ KV : \A v \in KV : rank(v) <= rank(u)
        ELSE /\ KV = V
             /\ \A u, v \in V : copies(kept, u) < copies(all, u) /\ copies(kept, v) > 0
                  => copies(all, v) <= copies(all, u)
\* NSGA-II: dominance depth, then crowding; the crowding is determined when no
\* two members of the front agree on an objective, otherwise left free
FrontSet(all, f, i) == {j \in DOMAIN all : f[j] = f[i]}
Distinct(all, F, n) == \A o \in 1..n : \A a, b \in F : a # b => all[a].v[o] # all[b].v[o]
CrowdOf(all, F, i, n) ==
  IF Cardinality(F) <= 2 THEN INF
  ELSE LET below(o) == {all[j].v[o] : j \in F} IN
       IF \E o \in 1..n : all[i].v[o] \in {Min(below(o)), Max(below(o))} THEN INF
       ELSE SumSeq([o \in 1..n |->
              LET S == below(o)
                  up == Min({s \in S : s > all[i].v[o]})
                  dn == Max({s \in S : s < all[i].v[o]})
              IN ((up - dn) * SC) \div (Max(S) - Min(S))])
KeyNSGAII(all, dirs) ==
  LET f == DepthFitness(Vs(all), dirs)
      n == Len(dirs)
  IN [i \in DOMAIN all |-> LET F == FrontSet(all, f, i)
        IN <<f[i], IF Distinct(all, F, n) THEN CrowdOf(all, F, i, n) ELSE 0>>]
\* crowding is a rounded real: differences below the rounding are ties
LexLessC(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] + 10 < b[2])

\* ---- environmental selection: drop a worst individual, give back its loss
\* to the others, until n remain.  fit, div: current values, C: indices left,
\* kept: the multiset that must remain.
\* what individual i gives back to individual j when it goes: by indicator
\* loss, or ("tab") also a change of diversity
Give(kind, a, b) ==
  IF kind = "ind" THEN <<Loss(a, b), 0>> ELSE <<Loss(a, b), (a[1] % 3) - (b[1] % 2)>>
RECURSIVE CanReach(_, _, _, _, _, _, _)
CanReach(all, C, fit, div, kept, n, kind) ==
  IF Cardinality(C) = n THEN \A r \in ToSet(all) : CountIn(r, kept) = Cardinality({i \in C : all[i] = r})
  ELSE LET worst == {i \in C : \A j \in C : ~LexLess2(<<fit[j], div[j]>>, <<fit[i], div[i]>>)}
           \* only individuals that are not all needed may go; equal ones are interchangeable
           cand == {i \in worst : CountIn(all[i], kept) < Cardinality({j \in C : all[j] = all[i]})
                                  /\ \A j \in worst : all[j] = all[i] => i <= j}
       IN \E i \in cand : LET u == [j \in DOMAIN all |-> Give(kind, all[i].v, all[j].v)] IN
            CanReach(all, C \ {i}, [j \in DOMAIN all |-> IF j \in C \ {i} THEN fit[j] + u[j][1] ELSE fit[j]],
                     [j \in DOMAIN all |-> IF j \in C \ {i} THEN div[j] + u[j][2] ELSE div[j]], kept, n, kind)
KeepsIBEA(kept, all, n) ==
  /\ Len(kept) = n /\ MultiIn(kept, all)
  /\ CanReach(all, DOMAIN all, IndFitness(Vs(all)), [i \in DOMAIN all |-> 0], kept, n, "ind")

-----------------------------------------------------------------------------
\* ---- one generation
Elitist == {"NSGAII", "NSGA", "MOGA", "IBEA"}
KeepsBy(alg, kept, all, n, dirs) ==
  CASE alg = "NSGAII" -> KeepsBest(kept, all, KeyNSGAII(all, dirs), n, LexLessC)
    [] alg = "NSGA" -> KeepsBest(kept, all, KeyNSGA(all, dirs), n, LexLess2)
    [] alg = "MOGA" -> KeepsMOGA(kept, all, n, dirs)
    [] alg = "IBEA" -> KeepsIBEA(kept, all, n)
\* no solution dominated by a known one survives while a non-dominated one is dropped
NoFrontLost(newpop, known, dirs) ==
  LET F == NDFront({r.v : r \in known}, dirs)
      P == {newpop[i].v : i \in DOMAIN newpop}
  IN (\E v \in P : v \notin F) => F \subseteq P
\* what an unbounded archive holds after all of S was submitted
ArchiveIs(arch, S, dirs) ==
  LET F == NDFront({r.v : r \in S}, dirs)
  IN /\ ToSet(arch) \subseteq S
     /\ {arch[i].v : i \in DOMAIN arch} = F
     /\ Len(arch) = Cardinality(F)
=============================================================================
