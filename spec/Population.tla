----------------------------- MODULE Population -----------------------------
(* Populations: sequences of individuals <<id, f>> with f the fitness.       *)
(* dir = 0: greater is better, dir = 1: smaller is better.                   *)
EXTENDS Common

PBetter(a, b, dir) == IF dir = 0 THEN a > b ELSE a < b
Fits(p) == [i \in DOMAIN p |-> p[i][2]]
\* fitness values, best first
Ranked(p, dir) == IF dir = 0 THEN SortSeq(Fits(p), >) ELSE SortSeq(Fits(p), <)
RankedF(fs, dir) == IF dir = 0 THEN SortSeq(fs, >) ELSE SortSeq(fs, <)
Take(s, k) == SubSeq(s, 1, k)
Drop(s, k) == SubSeq(s, k + 1, Len(s))
BestOf(p, dir) == Ranked(p, dir)[1]
WorstOf(p, dir) == Ranked(p, 1 - dir)[1]
BestIds(p, dir) == {p[i][1] : i \in {j \in DOMAIN p : p[j][2] = BestOf(p, dir)}}
WorstIds(p, dir) == {p[i][1] : i \in {j \in DOMAIN p : p[j][2] = WorstOf(p, dir)}}
\* every individual of r is one of p's, none used twice
FromPop(r, p) == MultiIn(r, p)
\* r holds k individuals of p with the k best fitness values
IsBest(r, p, k, dir) == FromPop(r, p) /\ Len(r) = k /\ Ranked(r, dir) = Take(Ranked(p, dir), k)

(* ---- how many: a rate (in eighths) rounded up, or a count; negative: the  *)
(* complement                                                                *)
HowMany(rate8, count, n) == IF count = 0 THEN ((rate8 * n) + 7) \div 8 ELSE IF count < 0 THEN n + count ELSE count
=============================================================================
