------------------------------ MODULE Control -------------------------------
(* Stopping criteria of the local searches, the checkpoint that drives the   *)
(* observers, and the landscape statistics and samplings.                    *)
EXTENDS Landscape

(* ---- stopping criteria.  A criterion k = [k, max, restart]; its state     *)
(* st = [cpt, start]; w = what it sees: [f, full, nb, val, best, dir].       *)
Counted(k, w) == CASE k.k = "full" -> w.full [] k.k = "nb" -> w.nb [] k.k = "evals" -> w.full + w.nb [] k.k = "value" -> w.val [] OTHER -> 0
CritInit(k, w) == [cpt |-> 0, start |-> IF k.restart THEN Counted(k, w) ELSE 0]
CritStep(k, st, w) ==
  CASE k.k = "iter" -> [st EXCEPT !.cpt = @ + 1]
    [] k.k = "noimpr" -> [st EXCEPT !.cpt = IF Better(w.f, w.best, w.dir) THEN 0 ELSE @ + 1]
    [] OTHER -> st
\* go on? (st: the state after the step)
CritGo(k, st, w) ==
  CASE k.k \in {"iter", "noimpr"} -> st.cpt < k.max
    [] k.k = "fit" -> Better(k.max, w.f, w.dir)
    [] k.k = "true" -> TRUE
    [] OTHER -> Counted(k, w) - st.start < k.max
AllInit(ks, w) == [i \in DOMAIN ks |-> CritInit(ks[i], w)]
AllStep(ks, ss, w) == [i \in DOMAIN ks |-> CritStep(ks[i], ss[i], w)]
AllGo(ks, ss, w) == \A i \in DOMAIN ks : CritGo(ks[i], ss[i], w)

(* ---- checkpoint: statistics every `interval' calls, everything else every *)
(* call                                                                      *)
StatCalls(calls, interval) == calls \div interval

(* ---- neighbourhood statistics of x: over the multiset of its neighbours   *)
NeighFits(tab, x, n) == [i \in 1..n |-> Fit(tab, Flip(x, i - 1))]
Sorted(s) == SortSeq(s, <)
SumOf(s) == SumSeq(s)
SumSq(s) == SumSeq([i \in DOMAIN s |-> s[i] * s[i]])
\* n^2 times the (population) variance
Spread(s) == Len(s) * SumSq(s) - SumOf(s) * SumOf(s)
NbSup(tab, x, n, dir) == CountIn(TRUE, [i \in 1..n |-> Better(Fit(tab, Flip(x, i - 1)), Fit(tab, x), dir)])
NbEq(tab, x, n) == CountIn(Fit(tab, x), NeighFits(tab, x, n))
NbInf(tab, x, n, dir) == n - NbSup(tab, x, n, dir) - NbEq(tab, x, n)
Quart(s, q) == Sorted(s)[((q * Len(s)) \div 4) + 1]
\* v is m thousandths of sum/len
IsMean(v, s) == Abs(v * Len(s) - 1000 * SumOf(s)) <= Len(s)
\* r is the square root of A/B, in hundredths
IsRoot(r, A, B) == r >= 0 /\ (IF r = 0 THEN 0 ELSE (r - 1) * (r - 1) * B) <= A * 10000 /\ A * 10000 <= (r + 1) * (r + 1) * B
IsSd(r, s) == IF Len(s) = 1 THEN r = 0 ELSE IsRoot(r, Spread(s), Len(s) * (Len(s) - 1))
IsPopSd(r, s) == IsRoot(r, Spread(s), Len(s) * Len(s))

(* ---- lengths of the climbs from x                                         *)
RECURSIVE SteepLens(_, _, _, _), ClimbLens(_, _, _, _)
SteepLens(tab, x, n, dir) == IF LocalOpt(tab, x, n, dir) THEN {<<x, 0>>} ELSE UNION {{<<e[1], e[2] + 1>> : e \in SteepLens(tab, y, n, dir)} : y \in ArgBest(tab, Around(x, Moves(n)), dir)}
ClimbLens(tab, x, n, dir) == IF LocalOpt(tab, x, n, dir) THEN {<<x, 0>>} ELSE UNION {{<<e[1], e[2] + 1>> : e \in ClimbLens(tab, y, n, dir)} : y \in {z \in Around(x, Moves(n)) : Better(Fit(tab, z), Fit(tab, x), dir)}}

(* ---- autocorrelation of lag k: correlation of the series with itself      *)
(* shifted by k                                                              *)
Lag(s, k) == LET N == Len(s) - k
                 a == [i \in 1..N |-> s[i]]
                 b == [i \in 1..N |-> s[i + k]]
             IN [cov |-> N * SumSeq([i \in 1..N |-> a[i] * b[i]]) - SumOf(a) * SumOf(b), va |-> Spread(a), vb |-> Spread(b)]
\* r hundredths of the correlation
IsCorr(r, g) == LET P == g.va * g.vb A == g.cov * g.cov * 10000 q == Abs(r) IN
  /\ (q > 1 => ((r > 0) <=> (g.cov > 0)))
  /\ (IF q = 0 THEN 0 ELSE (q - 1) * (q - 1) * P) <= A /\ A <= (q + 1) * (q + 1) * P
=============================================================================
