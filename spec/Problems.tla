------------------------------ MODULE Problems ------------------------------
(* The benchmark problems, by their published definition, and the elementary *)
(* moves on bit strings, permutations and partitions.  Solutions are         *)
(* sequences (positions counted from 0 in moves, as the code does).          *)
EXTENDS Common
At(x, i) == x[i + 1]
Pos(x) == 0..(Len(x) - 1)
\* ------------------------------------------------------------------ moves
FlipAt(x, B) == [i \in DOMAIN x |-> IF (i - 1) \in B THEN 1 - x[i] ELSE x[i]]
Exch(x, i, j) == [x EXCEPT ![i + 1] = x[j + 1], ![j + 1] = x[i + 1]]
Without(x, i) == SubSeq(x, 1, i) \o SubSeq(x, i + 2, Len(x))
\* the element of position i is put just before the one that was at position j
Shift(x, i, j) ==
  LET y == Without(x, i)
      k == IF j > i THEN j - 1 ELSE j
  IN SubSeq(y, 1, k) \o <<At(x, i)>> \o SubSeq(y, k + 1, Len(y))
Reverse2(x, i, j) == SubSeqRev(x, i + 1, j + 1)
Move(m, x) ==
  CASE m.t = "flip" -> FlipAt(x, ToSet(m.a))
    [] m.t = "swap" -> Exch(x, m.a[1], m.a[2])
    [] m.t = "shift" -> Shift(x, m.a[1], m.a[2])
    [] m.t = "rev" -> Reverse2(x, m.a[1], m.a[2])
    \* partition as a 0/1 vector: 1 = selected
    [] m.t = "part" -> [x EXCEPT ![m.a[1] + 1] = 1, ![m.a[2] + 1] = 0]
\* --------------------------------------------------------------- problems
OneMax(x) == SumSeq(x)
RoyalRoad(x, k) == Cardinality({b \in 0..((Len(x) \div k) - 1) : \A j \in 1..k : x[b * k + j] = 1})
\* quadratic form, Q as a sequence of rows
Ubqp(x, Q) == LET S == {i \in DOMAIN x : x[i] = 1}
              IN FoldSet(LAMBDA i, a : a + FoldSet(LAMBDA j, b : b + Q[i][j], 0, S), 0, S)
\* number of satisfied clauses
Sat(x, cl) == \E k \in DOMAIN cl : IF cl[k] > 0 THEN x[cl[k]] = 1 ELSE x[-cl[k]] = 0
MaxSat(x, cls) == Cardinality({i \in DOMAIN cls : Sat(x, cls[i])})
Qap(x, A, B) == FoldSet(LAMBDA p, a : a + A[p[1]][p[2]] * B[x[p[1]] + 1][x[p[2]] + 1], 0, (DOMAIN x) \X (DOMAIN x))
Queens(x) == Cardinality({p \in (DOMAIN x) \X (DOMAIN x) : p[1] < p[2] /\ Abs(x[p[1]] - x[p[2]]) = p[2] - p[1]})
\* sum over the sites of the contribution of the site and its linked sites
NkIndex(x, lk) == SumSeq([j \in DOMAIN lk |-> At(x, lk[j]) * 2^(j - 1)]) + 1
Nk(x, links, tables) == SumSeq([i \in DOMAIN x |-> tables[i][NkIndex(x, links[i])]])
\* the long path of parameter k on strings of length n, n = 1 modulo k
Rep(b, k) == [i \in 1..k |-> b]
RECURSIVE LongPath(_, _)
LongPath(n, k) ==
  IF n = 1 THEN <<<<0>>, <<1>>>>
  ELSE LET p == LongPath(n - k, k)
           z == [i \in DOMAIN p |-> p[i] \o Rep(0, k)]
           bridge == [i \in 1..(k - 1) |-> p[Len(p)] \o Rep(1, i) \o Rep(0, k - i)]
           o == [i \in DOMAIN p |-> p[Len(p) + 1 - i] \o Rep(1, k)]
       IN z \o bridge \o o
\* number of differing positions to the previous string; 1 all along the path
Ham(x, y) == Cardinality({i \in DOMAIN x : x[i] # y[i]})
\* bridge strings carry their ones next to the prefix
LongK(x, path) ==
  IF \E i \in DOMAIN path : path[i] = x THEN Len(x) + (CHOOSE i \in DOMAIN path : path[i] = x) - 1
  ELSE Cardinality({i \in DOMAIN x : x[i] = 0})
\* fitness of x for the problem instance p
Fit(x, p) ==
  CASE p.kind = "onemax" -> OneMax(x)
    [] p.kind = "royal" -> RoyalRoad(x, p.k)
    [] p.kind = "ubqp" -> Ubqp(x, p.Q)
    [] p.kind = "maxsat" -> MaxSat(x, p.clauses)
    [] p.kind = "qap" -> Qap(x, p.A, p.B)
    [] p.kind = "queens" -> Queens(x)
    [] p.kind = "nk" -> Nk(x, p.links, p.tables)
    [] p.kind = "longk" -> LongK(x, LongPath(Len(x), p.k))
    [] p.kind = "table" -> p.tab[1 + (SumSeq([i \in DOMAIN x |-> x[i] * p.w[i]]) % Len(p.tab))]
Permutes(x) == {x[i] : i \in DOMAIN x} = 0..(Len(x) - 1)
=============================================================================
