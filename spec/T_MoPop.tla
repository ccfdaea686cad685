------------------------------ MODULE T_MoPop -------------------------------
(* Fitness and diversity assignments recorded from the real code.  Each      *)
(* event holds the population before (pop: ids and vectors) and after (out:  *)
(* the same individuals, possibly reordered, with the assigned value w).     *)
EXTENDS MoPop, TraceBase
VARIABLE dirs

V(s) == [i \in DOMAIN s |-> s[i].v]
\* the assigned value of the i-th individual of the given population
W(s, out) == [i \in DOMAIN s |-> (CHOOSE o \in ToSet(out) : o.id = s[i].id).w]
\* same individuals, with untouched genotype (id) and vectors
Kept(s, out) == /\ Len(s) = Len(out)
                /\ {[id |-> x.id, v |-> x.v] : x \in ToSet(s)} = {[id |-> x.id, v |-> x.v] : x \in ToSet(out)}

TSetup == IsOp("new") /\ dirs' = E.dirs
TDepth ==
  /\ IsOp("depth") /\ UNCHANGED dirs /\ Kept(E.pop, E.out)
  /\ LET fit == W(E.pop, E.out) IN
     IF E.rm /\ Len(dirs) = 2 THEN IsDepthNoEquiv(fit, V(E.pop), dirs)
     ELSE fit = DepthFitness(V(E.pop), dirs)
TDepthDel ==
  /\ IsOp("depthdel") /\ UNCHANGED dirs /\ Kept(E.pop, E.out)
  /\ \A i \in DOMAIN E.pop : W(E.pop, E.out)[i] = E.pop[i].w + (IF Dominates(E.del, E.pop[i].v, dirs) THEN 1 ELSE 0)
Both == V(E.arch) \o V(E.pop)
BothW == W(E.arch, E.aout) \o W(E.pop, E.out)
KeptBoth == Kept(E.pop, E.out) /\ Kept(E.arch, E.aout)
TCount == IsOp("count") /\ UNCHANGED dirs /\ KeptBoth /\ BothW = CountFitness(Both, E.nocopy, dirs)
TRank == IsOp("rank") /\ UNCHANGED dirs /\ KeptBoth /\ BothW = RankFitness(Both, E.nocopy, E.start, dirs)
\* the matrix itself: who beats whom, how many each beats, by how many each is beaten
TDomMat == IsOp("dommat") /\ UNCHANGED dirs
  /\ TRUE = (LET all == V(E.a) \o V(E.b) C == Copies(all, E.nocopy) IN
       /\ E.ct = CountFitness(all, E.nocopy, dirs)
       /\ E.rk = [i \in DOMAIN all |-> -RankFitness(all, E.nocopy, 0, dirs)[i]]
       /\ \A i \in DOMAIN all, j \in DOMAIN all : (i \in C \/ j \in C) \/ ((E.m[i][j] = 1) = Dominates(all[i], all[j], dirs)))
TRanking == IsOp("ranking") /\ UNCHANGED dirs /\ KeptBoth /\ BothW = RankingFitness(Both, E.nocopy, dirs)
TInd ==
  /\ IsOp("ind") /\ UNCHANGED dirs /\ Kept(E.pop, E.out)
  /\ W(E.pop, E.out) = IndFitness(V(E.pop))
  /\ \A o \in DOMAIN dirs :
       LET S == {E.pop[i].v[o] : i \in DOMAIN E.pop}
       IN Max(S) # Min(S) => E.lo[o] = Min(S) /\ E.hi[o] = Max(S)
\* deleting u from the population: every fitness gains back the loss u caused
TIndDel ==
  /\ IsOp("inddel") /\ UNCHANGED dirs /\ Kept(E.pop, E.out)
  /\ \A i \in DOMAIN E.pop : W(E.pop, E.out)[i] = E.pop[i].w + Loss(E.del, E.pop[i].v)
  \* ... so that after deleting a member the fitness equals a fresh assignment
  /\ E.fresh => W(E.pop, E.out) = IndFitness(V(E.pop))
TIndAdd ==
  /\ IsOp("indadd") /\ UNCHANGED dirs /\ Kept(E.pop, E.out)
  /\ \A i \in DOMAIN E.pop : W(E.pop, E.out)[i] = E.pop[i].w - Loss(E.add, E.pop[i].v)
  /\ E.r = -SumSeq([i \in DOMAIN E.pop |-> Loss(E.pop[i].v, E.add)])
TAgg == /\ IsOp("agg") /\ UNCHANGED dirs /\ Kept(E.pop, E.out)
        /\ \A i \in DOMAIN E.pop : W(E.pop, E.out)[i] = AggFitness(E.pop[i].v, E.wt, dirs)

TCrowd ==
  /\ IsOp("crowd") /\ UNCHANGED dirs /\ Kept(E.pop, E.out)
  /\ LET div == W(E.pop, E.out)
         p == V(E.pop)
     IN IF E.ff /\ Len(p) > 2
        THEN \A f \in {E.pop[i].f : i \in DOMAIN E.pop} : IsCrowding(p, {i \in DOMAIN p : E.pop[i].f = f}, div)
        ELSE IsCrowding(p, DOMAIN p, div)
TShare ==
  /\ IsOp("share") /\ UNCHANGED dirs /\ Kept(E.pop, E.out)
  /\ SharingOK(V(E.pop), [i \in DOMAIN E.pop |-> E.pop[i].f], E.ff, E.r, E.a, W(E.pop, E.out))
TNear == IsOp("near") /\ UNCHANGED dirs /\ KeptBoth
         /\ NearestOK(V(E.pop) \o V(E.arch), E.k, W(E.pop, E.out) \o W(E.arch, E.aout))
TDist == /\ IsOp("dist") /\ UNCHANGED dirs
         /\ E.man = Manhattan(E.u, E.v) * E.sc /\ E.sq = SqEuclid(E.u, E.v) * E.sc * E.sc
TMat == /\ IsOp("matrix") /\ UNCHANGED dirs
        /\ \A i, j \in DOMAIN E.pop : E.m[i][j] = Manhattan(E.pop[i], E.pop[j])

TraceInit == l = 1 /\ dirs = <<>>
TraceNext == \/ TSetup \/ TDepth \/ TDepthDel \/ TCount \/ TRank \/ TRanking \/ TInd \/ TIndDel \/ TIndAdd \/ TAgg
             \/ TCrowd \/ TShare \/ TNear \/ TDist \/ TMat \/ TDomMat
TraceSpec == TraceInit /\ [][TraceNext]_<<dirs, l>>
=============================================================================
