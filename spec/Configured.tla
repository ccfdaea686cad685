----------------------------- MODULE Configured -----------------------------
(* Runs assembled from options.  An option record names the selection, the   *)
(* replacement, the number of offspring, the elitism and the stopping        *)
(* criteria; the run it gives behaves as the parts named would.              *)
EXTENDS Selection, Replacement, Stopping

(* ---- replacement: the ranked fitness values kept                          *)
KeptBy(kind, a, par, off, dir) ==
  CASE kind = "comma" -> Comma(par, off, dir)
    [] kind = "plus" -> Plus(par, off, dir)
    [] kind = "ssworse" -> SSWorse(par, off, dir)
    [] kind = "ssga" -> SSWorse(par, <<<<0, BestOf(off, dir)>>>>, dir)
    [] kind = "g3" -> G3(par, off, a[1], dir)
    [] kind = "mgg" -> MGG(par, off, a[1], dir)
    [] kind = "general" -> RMRStrong(par, off, a[1], a[2], a[3], dir)
AsPop(fs) == [i \in DOMAIN fs |-> <<0, fs[i]>>]
WithElite(weak, par, fs, dir) == IF weak THEN WeakElite(par, AsPop(fs), dir) ELSE fs

(* ---- selection: the weight of each parent, out of the sum                 *)
RankOf(p, i, dir) == 1 + Cardinality({j \in DOMAIN p : PBetter(p[j][2], p[i][2], dir)})
Weight(kind, a, p, i, dir) == LET n == Len(p) v == p[i][2] IN
  CASE kind = "dettour" -> TourWins(p, a[1], v, dir)
    [] kind = "stochtour" -> StochWins(p, a[1], v, dir)
    [] kind = "ranking" -> (LET k == RankOf(p, i, dir) IN IF a[2] = 1 THEN RankNum(n, k, a[1])
         ELSE ((2 * a[1] - 16) * (n + 1 - k) * (n + 1 - k)) + ((16 - a[1]) * n * n))
    [] kind = "roulette" -> v
    [] kind = "random" -> 1
    [] kind = "sharing" -> (LET den(x) == SumSeq([j \in 1..n |-> MaxOf(0, a[1] - Abs(p[x][1] - p[j][1]))]) IN
         v * ProdSeq([j \in 1..n |-> IF j = i THEN 1 ELSE den(j)]))
Weights(kind, a, p, dir) == [i \in DOMAIN p |-> Weight(kind, a, p, i, dir)]

(* ---- stopping: <<k, a, b>> with k = 1 generations, 2 steady, 3            *)
(* evaluations, 4 target                                                     *)
Crit(c, dir) == [kind |-> <<"gen", "steady", "evals", "fit">>[c[1]], a |-> c[2], b |-> c[3], dir |-> dir]
Seen(best, evals) == [fits |-> <<best>>, evals |-> evals, now |-> 0]
\* the state of a criterion after the g first generations
RECURSIVE After(_, _, _, _, _)
After(c, best, n, m, g) == IF g = 0 THEN CInit(0, 0) ELSE CStep(c, After(c, best, n, m, g - 1), Seen(best[g], n + g * m))
GoesOn(c, best, n, m, g) == CGo(c, After(c, best, n, m, g), Seen(best[g], n + g * m))
StopsExactly(crits, best, n, m, dir) == LET G == Len(best) IN
  /\ G > 0
  /\ \A g \in 1..(G - 1) : \A i \in DOMAIN crits : GoesOn(Crit(crits[i], dir), best, n, m, g)
  /\ \E i \in DOMAIN crits : ~GoesOn(Crit(crits[i], dir), best, n, m, G)

(* ---- bit strings                                                          *)
Changes(b) == Cardinality({i \in 2..Len(b) : b[i] # b[i - 1]})
Ones(b) == SumSeq(b)
=============================================================================
