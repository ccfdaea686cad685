----------------------------- MODULE Estimation -----------------------------
(* Distributions estimated from a sample, samples drawn from a distribution, *)
(* and the repair of what was drawn.  A sample is a sequence of integer      *)
(* vectors; estimated numbers are given in thousandths.                      *)
EXTENDS Common
Dim(X) == Len(X[1])
Col(X, j) == [i \in DOMAIN X |-> X[i][j]]
S1(X, j) == SumSeq(Col(X, j))
S2(X, j, k) == SumSeq([i \in DOMAIN X |-> X[i][j] * X[i][k]])
\* n times the mean, n squared times the covariance
MeanN(X, j) == S1(X, j)
CovN(X, j, k) == Len(X) * S2(X, j, k) - S1(X, j) * S1(X, k)
Lows(X) == [j \in 1..Dim(X) |-> CHOOSE v \in {X[i][j] : i \in DOMAIN X} : \A i \in DOMAIN X : v <= X[i][j]]
Highs(X) == [j \in 1..Dim(X) |-> CHOOSE v \in {X[i][j] : i \in DOMAIN X} : \A i \in DOMAIN X : v >= X[i][j]]
MeanOk(m, X) == Len(m) = Dim(X) /\ \A j \in DOMAIN m : Abs(m[j] * Len(X) - 1000 * MeanN(X, j)) <= Len(X)
CovOk(v, X, j, k) == Abs(v * Len(X) * Len(X) - 1000 * CovN(X, j, k)) <= Len(X) * Len(X)
VarsOk(v, X) == Len(v) = Dim(X) /\ \A j \in DOMAIN v : CovOk(v[j], X, j, j)
CovsOk(c, X) == Len(c) = Dim(X) /\ \A j, k \in DOMAIN c : CovOk(c[j][k], X, j, k)
(* ---- repair                                                               *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Inside(x, lo, hi) == lo <= x /\ x <= hi
\* in quarters: down, up, to the nearest unit and (in tenths) to the nearest tenth, halves away from zero
Down4(q) == 4 * (q \div 4)
Up4(q) == -4 * ((-q) \div 4)
Sgn(q) == IF q < 0 THEN -1 ELSE 1
Near4(q) == Sgn(q) * 4 * ((Abs(q) + 2) \div 4)
Tenths(q) == Sgn(q) * ((10 * Abs(q) + 2) \div 4)
Rest(q, d) == Sgn(q) * (Abs(q) % d)
(* ---- what a large sample must look like (sd: squared standard deviations) *)
\* mean m (in hundredths) of n draws around mu with variance v: within six standard errors
MeanFits(m, mu, v, n) == LET d == Abs(m - 100 * mu) IN d <= 1 \/ (d - 1) * (d - 1) * (n \div 100) <= 36 * v * 100
\* covariance c (in tenths) of n >= 2500 draws, true c0, variances v, w
CovFits(c, c0, v, w) == LET d == Abs(c - 10 * c0) IN d <= 1 \/ (d - 1) * (d - 1) * 25 <= 100 * v * w
\* k successes of n at p thousandths
FreqFits(k, p, n) == IF p = 0 THEN k = 0 ELSE IF p = 1000 THEN k = n ELSE LET d == Abs(k * 10 - (p * n) \div 100) IN d <= 20 * ISqrt(n) + 10
=============================================================================
