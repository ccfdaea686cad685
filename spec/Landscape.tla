----------------------------- MODULE Landscape ------------------------------
(* A fitness landscape: solutions are the integers 0..2^n-1 seen as strings  *)
(* of n bits, neighbours differ by one bit, tab[x+1] is the fitness of x.    *)
(* dir = 0: greater is better, dir = 1: smaller is better.                   *)
EXTENDS Common

Pow2(k) == 2 ^ k
Flip(x, i) == IF (x \div Pow2(i)) % 2 = 1 THEN x - Pow2(i) ELSE x + Pow2(i)
Moves(n) == 0..(n - 1)
Around(x, M) == {Flip(x, i) : i \in M}
\* the move leading from x to y (x and y neighbours)
MoveTo(x, y, n) == CHOOSE i \in Moves(n) : Flip(x, i) = y
IsNeighbour(x, y, n) == \E i \in Moves(n) : Flip(x, i) = y
Dist(x, y, n) == Cardinality({i \in Moves(n) : (x \div Pow2(i)) % 2 # (y \div Pow2(i)) % 2})
Fit(tab, x) == tab[x + 1]
Better(a, b, dir) == IF dir = 0 THEN a > b ELSE a < b
BestFit(tab, S, dir) == CHOOSE v \in {Fit(tab, x) : x \in S} : \A y \in S : ~Better(Fit(tab, y), v, dir)
ArgBest(tab, S, dir) == {x \in S : Fit(tab, x) = BestFit(tab, S, dir)}
WorstFit(tab, S, dir) == BestFit(tab, S, 1 - dir)
LocalOpt(tab, x, n, dir) == \A i \in Moves(n) : ~Better(Fit(tab, Flip(x, i)), Fit(tab, x), dir)
\* what an acceptance comparison admits: strictly better, or also equal
Admits(rule, new, old, dir) == Better(new, old, dir) \/ (rule = "eq" /\ new = old)
=============================================================================
