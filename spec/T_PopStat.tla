----------------------------- MODULE T_PopStat ------------------------------
EXTENDS PopStat, TraceBase
VARIABLES d0, top    \* direction and best individual shown so far (empty: none)
vars == <<d0, top>>
R == E.res
P == E.pop
D == E.dir
RF == Ranked(P, D)
Stay == UNCHANGED vars
TNew == IsOp("new") /\ d0' = E.dir /\ top' = <<>>
TArr == IsOp("arr") /\ TRUE = (E.same /\ SameMulti(R, P) /\ (E.kind = "sort" => InOrder(R, D))) /\ Stay
TOne == IsOp("one") /\ TRUE = (E.same /\
         CASE E.kind = "best" -> R \in ToSet(P) /\ R[2] = BestOf(P, D)
           [] E.kind = "worst" -> R \in ToSet(P) /\ R[2] = WorstOf(P, D)
           [] E.kind = "nthfit" -> R[2] = RF[E.k + 1]) /\ Stay
TNth == IsOp("nth") /\ TRUE = (E.same /\ SameMulti(R, P) /\ E.at = E.k /\ IsNth(R, E.k, D)) /\ Stay
TSwap == IsOp("swap") /\ TRUE = (R = E.other /\ E.res2 = P) /\ Stay
TInv == IsOp("inval") /\ TRUE = (Len(R) = Len(P) /\ \A i \in DOMAIN R : R[i][1] = P[i][1] /\ R[i][2] = -1000000001) /\ Stay
Fresh(n) == [i \in 1..n |-> <<79 + i, 1>>]
TAppend == IsOp("append") /\ TRUE = (IF E.kind = "ctor" THEN R = Fresh(E.m)
           ELSE IF E.m < Len(P) THEN E.threw /\ R = P ELSE ~E.threw /\ R = P \o Fresh(E.m - Len(P))) /\ Stay
\* worst first
Up(i) == Ranked(P, 1 - D)[i + 1]
Clip(x) == MaxOf(E.lo, MinOf(E.hi, x))
StatOk == E.same /\ LET n == Len(P) S == SumSeq(Fits(P)) IN
  CASE E.kind = "average" -> Approx(E.v, 1000, S, n)
    [] E.kind = "moment" -> Approx(E.v, 1000, S, n) /\ ApproxSqrt(E.w, 10000, Cov2(Fits(P), Fits(P)), n * (n - 1))
    [] E.kind = "bestfit" -> E.v = BestOf(P, D)
    [] E.kind = "iqr" -> LET q == n \div 4 IN Abs(E.v) = Abs(Up(3 * q) - Up(q))
    [] E.kind = "nthstat" -> E.v = Up(E.k)
    [] E.kind = "nthsorted" -> IF E.k >= n THEN E.threw ELSE ~E.threw /\ E.v = RF[E.k + 1]
    [] E.kind = "sum" -> E.v = S
    [] E.kind = "all" -> E.v = [i \in DOMAIN RF |-> Clip(RF[i])]
TStat == IsOp("stat") /\ E.kind # "bestind" /\ TRUE = StatOk /\ Stay
\* the best individual is remembered over all populations shown
TBestInd == /\ IsOp("stat") /\ E.kind = "bestind" /\ E.same
            /\ LET b == BestOf(P, D) IN
               IF top = <<>> \/ PBetter(b, top[2], D) THEN E.v = b /\ <<E.id, E.v>> \in ToSet(P) /\ top' = <<E.id, E.v>>
               ELSE <<E.id, E.v>> = top /\ top' = top
            /\ UNCHANGED d0
Shown == IF E.m = 0 THEN Len(P) ELSE E.m
TDump == IsOp("dump") /\ TRUE = (E.same /\ Len(E.v) = Shown /\
          IF E.kind = "dump" THEN E.v = SubSeq(E.ind, 1, Shown)
          ELSE MultiIn(E.v, E.ind) /\ [i \in 1..Shown |-> P[CHOOSE j \in DOMAIN P : E.ind[j] = E.v[i]][2]] = SubSeq(RF, 1, Shown)) /\ Stay
GenoOk == E.same /\ LET n == Len(E.gs) IN
  IF E.kind = "spread" THEN Approx(E.v, 1000, AllDist(E.gs), n * n * Len(E.gs[1]))
  ELSE LET kind == (IF E.kind = "fdcham" THEN "hamming" ELSE "l1")
           pop == [i \in DOMAIN E.gs |-> <<i, E.fs[i]>>]
           refs == (IF E.opt # <<>> THEN {E.opt} ELSE {E.gs[i] : i \in BestIds(pop, D)})
       IN \E g \in refs : LET ds == [i \in DOMAIN E.gs |-> SeqDist(E.gs[i], g, kind)] num == Cov2(ds, E.fs) a == Cov2(ds, ds) b == Cov2(E.fs, E.fs) IN
          /\ E.ds = ds /\ E.ff = E.fs
          /\ (a * b > 0 => /\ Abs(E.v) <= 101 /\ (Abs(E.v) > 1 => (E.v > 0 <=> num > 0)) /\ ApproxSqrt(Abs(E.v), 10000, num * num, a * b))
TGeno == IsOp("geno") /\ TRUE = GenoOk /\ Stay
TDist == IsOp("dist") /\ TRUE = (E.ham = SeqDist(E.a, E.b, "hamming") /\ E.l1 = SeqDist(E.a, E.b, "l1") /\ ApproxSqrt(E.quad, 1000000, SeqDist(E.a, E.b, "l2"), 1) /\ E.fit = Abs(E.fa - E.fb)) /\ Stay
TSize == IsOp("size") /\ TRUE = Approx(E.v, 1000, SumSeq(E.lens), Len(E.lens)) /\ Stay
Fe(b) == SelectSeq([i \in DOMAIN E.v |-> i - 1], LAMBDA i : E.v[i + 1][2] = b)
TFeas == IsOp("feas") /\ TRUE = Approx(E.r, 1000, Cardinality({i \in DOMAIN E.v : E.v[i][2] = 1}), Len(E.v)) /\ Stay
TSplit == IsOp("dualsplit") /\ TRUE = (SameMulti(E.fe, Fe(1)) /\ SameMulti(E.un, Fe(0)) /\ SameMulti(E.all, Fe(1) \o Fe(0))) /\ Stay
TDualBest == IsOp("dualbest") /\ TRUE = (\A i \in DOMAIN E.v : ~DualLess(E.v[E.best + 1], E.v[i], E.dir) /\ ~DualLess(E.v[i], E.v[E.worst + 1], E.dir)) /\ Stay
TraceInit == l = 1 /\ d0 = 0 /\ top = <<>>
TraceNext == TNew \/ TArr \/ TOne \/ TNth \/ TSwap \/ TInv \/ TAppend \/ TStat \/ TBestInd \/ TDump \/ TGeno \/ TDist \/ TSize \/ TFeas \/ TSplit \/ TDualBest
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
