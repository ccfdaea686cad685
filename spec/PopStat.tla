------------------------------ MODULE PopStat -------------------------------
(* Population queries and statistics.  Individuals are <<id, f>> or          *)
(* <<id, f, genotype>>.  Real results come as fixed-point integers; an       *)
(* identity  value = num / den  is decided as bounds on scaled integers.     *)
EXTENDS Population

\* v approximates k * num / den  (k: fixed-point scale, den > 0)
Approx(v, k, num, den) == /\ (v - 1) * den <= k * num /\ (v + 1) * den >= k * num
\* v approximates  k * sqrt(num / den), k2 = k * k
ApproxSqrt(v, k2, num, den) == /\ v >= 0 /\ (v + 1) * (v + 1) * den >= k2 * num
                               /\ (v = 0 \/ (v - 1) * (v - 1) * den <= k2 * num)
Sq(s) == [i \in DOMAIN s |-> s[i] * s[i]]
Prod2(s, t) == [i \in DOMAIN s |-> s[i] * t[i]]
\* n^2 times the (co)variance
Cov2(s, t) == Len(s) * SumSeq(Prod2(s, t)) - SumSeq(s) * SumSeq(t)

\* a population partitioned at position n (from 0): element n is the n-th
\* best, none before is worse, none after is better
IsNth(p, n, dir) == /\ p[n + 1][2] = Ranked(p, dir)[n + 1]
                    /\ \A i \in 1..n : ~PBetter(p[n + 1][2], p[i][2], dir)
                    /\ \A i \in (n + 2)..Len(p) : ~PBetter(p[i][2], p[n + 1][2], dir)
InOrder(p, dir) == Fits(p) = Ranked(p, dir)

\* genotype distances
SeqDist(a, b, kind) == LET d == [i \in DOMAIN a |-> Abs(a[i] - b[i])] IN
  IF kind = "l1" THEN SumSeq(d) ELSE IF kind = "hamming" THEN Cardinality({i \in DOMAIN a : a[i] # b[i]}) ELSE SumSeq(Sq(d))
\* sum of all pairwise L1 distances
AllDist(gs) == SumSeq([i \in DOMAIN gs |-> SumSeq([j \in DOMAIN gs |-> SeqDist(gs[i], gs[j], "l1")])])

(* ---- fitness orders: dual fitness <<value, feasible>>                     *)
DualLess(a, b, dir) == IF a[2] # b[2] THEN b[2] = 1 ELSE PBetter(b[1], a[1], dir)
=============================================================================
