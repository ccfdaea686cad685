----------------------------- MODULE Selection ------------------------------
(* Selection of parents.  Probabilities are rationals num / den; observed    *)
(* frequencies over K draws are compared with a margin of seven times the    *)
(* square root of the expectation.                                           *)
EXTENDS Population

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
NotBetter(p, v, dir) == Cardinality({i \in DOMAIN p : ~PBetter(p[i][2], v, dir)})
Worse(p, v, dir) == Cardinality({i \in DOMAIN p : PBetter(v, p[i][2], dir)})
\* number of draws of t contestants (with replacement) whose best has fitness v
TourWins(p, t, v, dir) == Pow(NotBetter(p, v, dir), t) - Pow(Worse(p, v, dir), t)
TourLosses(p, v, dir) == TourWins(p, 2, v, 1 - dir)
\* eighths of the n^2 draws of two whose better (with rate r8/8) or worse has fitness v
StochWins(p, r8, v, dir) == r8 * TourWins(p, 2, v, dir) + (8 - r8) * TourLosses(p, v, dir)

\* c observed out of K draws of probability num / den
Near(c, K, num, den) == LET e == (K * num) \div den IN Abs(c - e) <= 7 * ISqrt(e) + 7

\* worths (fixed-point 10^6) of ranking: rank i = 1 is best
RankNum(n, i, p8) == (2 * p8 - 16) * (n + 1 - i) + (16 - p8) * (n - 1)   \* linear; denominator 8 n (n - 1)
Fill(s, k) == [i \in 1..k |-> s[((i - 1) % Len(s)) + 1]]
=============================================================================
