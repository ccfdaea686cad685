------------------------------- MODULE Metric -------------------------------
(* Quality indicators of fronts, on integer objective vectors.  A point is   *)
(* turned into the sizes of the box it dominates up to the reference point.  *)
EXTENDS Pareto

\* ---- volume of a union of boxes anchored at the reference point
RECURSIVE MeetAll(_)
MeetAll(S) == LET b == CHOOSE x \in S : TRUE
              IN IF Cardinality(S) = 1 THEN b
                 ELSE LET r == MeetAll(S \ {b}) IN [i \in DOMAIN b |-> MinOf(b[i], r[i])]
Box(b) == ProdSeq(b)
\* inclusion-exclusion
UnionVol(S) == FoldSet(LAMBDA T, acc : acc + (IF Cardinality(T) % 2 = 1 THEN 1 ELSE -1) * Box(MeetAll(T)), 0, SUBSET S \ {{}})
\* unit cells covered: the definition itself
Cells(S, top, n) == {c \in [1..n -> 1..top] : \E b \in S : \A i \in 1..n : c[i] <= b[i]}

Spread(S, o) == Max({v[o] : v \in S}) - Min({v[o] : v \in S})
\* Box sizes of v against a reference point given in doubled coordinates
SizesRef(v, ref2, dirs) == [i \in DOMAIN dirs |-> IF dirs[i] = 1 THEN ref2[i] - 2 * v[i] ELSE 2 * v[i] - ref2[i]]
\* Sizes in units of 1/(2 range) when objectives are normalised over S: the
\* reference lies rho ranges from the ideal point (rho2 = 2 rho).  Without
\* spread an objective is normalised to the middle of [0,1].
SizesNorm(v, S, rho2, dirs) ==
  [i \in DOMAIN dirs |->
     LET lo == Min({u[i] : u \in S}) hi == Max({u[i] : u \in S}) r == hi - lo
     IN IF r = 0 THEN rho2 - 1
        ELSE IF dirs[i] = 1 THEN rho2 * r - 2 * (v[i] - lo)
        ELSE rho2 * r - 2 * (hi - v[i])]
\* volume of one unit box (the scale of the above)
UnitNorm(S, n) == ProdSeq([i \in 1..n |-> LET r == Spread(S, i) IN IF r = 0 THEN 2 ELSE 2 * r])
HVNorm(A, S, rho2, dirs) == UnionVol({SizesNorm(v, S, rho2, dirs) : v \in A})
HVRef(A, ref2, dirs) == UnionVol({SizesRef(v, ref2, dirs) : v \in A})
\* non-normalised with rho: reference = rho max (minimised), (1 - rho) max (maximised)
RhoRef2(S, rho2, dirs) == [i \in DOMAIN dirs |-> LET hi == Max({v[i] : v \in S})
                             IN IF dirs[i] = 1 THEN rho2 * hi ELSE (2 - rho2) * hi]

\* ---- epsilon indicators: how far every b is from being weakly dominated by A
Shift(a, b, dirs, i) == IF dirs[i] = 1 THEN a[i] - b[i] ELSE b[i] - a[i]
EpsAdd(A, B, dirs) == Max({Min({Max({Shift(a, b, dirs, i) : i \in DOMAIN dirs}) : a \in A}) : b \in B})
\* with every objective divided by its range (fixed point, scale s)
EpsAddNorm(A, B, rng, dirs, s) ==
  Max({Min({Max({(Shift(a, b, dirs, i) * s) \div rng[i] : i \in DOMAIN dirs}) : a \in A}) : b \in B})
Quot(a, b, dirs, i, s) == IF dirs[i] = 1 THEN (a[i] * s) \div b[i] ELSE (b[i] * s) \div a[i]
EpsMul(A, B, dirs, s) == Max({Min({Max({Quot(a, b, dirs, i, s) : i \in DOMAIN dirs}) : a \in A}) : b \in B})

\* ---- the part of the space (up to top) that a dominates and b does not
Mirror(v, lo, hi, dirs) == [i \in DOMAIN dirs |-> IF dirs[i] = 1 THEN v[i] ELSE hi[i] + lo[i] - v[i]]
BoxTo(v, top2) == ProdSeq([i \in DOMAIN v |-> top2[i] - 2 * v[i]])
OnlyBy(a, b, top2) == BoxTo(a, top2) - BoxTo([i \in DOMAIN a |-> MaxOf(a[i], b[i])], top2)
\* binary hypervolume: minus what a gains over b if it dominates b, else what b adds to a
HVBin(a, b, lo, hi, rho2, dirs) ==
  LET top2 == [i \in DOMAIN dirs |-> 2 * lo[i] + rho2 * (hi[i] - lo[i])]
      x == Mirror(a, lo, hi, dirs)
      y == Mirror(b, lo, hi, dirs)
  IN IF Dominates(a, b, dirs) THEN -OnlyBy(x, y, top2) ELSE OnlyBy(y, x, top2)

\* ---- contribution of the sequence of vectors A against B
CardC(A, B) == Cardinality({i \in DOMAIN A : \E j \in DOMAIN B : A[i] = B[j]})
CardW(A, B, dirs) == Cardinality({i \in DOMAIN A : \E j \in DOMAIN B : Dominates(A[i], B[j], dirs)})
CardN(A, B, dirs) == Cardinality({i \in DOMAIN A : ~ \E j \in DOMAIN B : Dominates(A[i], B[j], dirs) \/ Dominates(B[j], A[i], dirs)})
\* numerator (doubled) and denominator
ContribNum2(A, B, dirs) == CardC(A, B) + 2 * CardW(A, B, dirs) + 2 * CardN(A, B, dirs)
ContribDen(A, B, dirs) == CardC(A, B) + CardW(A, B, dirs) + CardN(A, B, dirs) + CardW(B, A, dirs) + CardN(B, A, dirs)
=============================================================================
