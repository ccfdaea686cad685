------------------------------- MODULE Bounds -------------------------------
(* Bounds on a coordinate and the operators that must respect them.  A bound *)
(* is [lo, hi, ml, mh]: ml / mh tell whether there is a minimum / maximum.    *)
(* Numbers are exact (integers in some unit).                                *)
EXTENDS Common

InB(b, x) == (b.ml => x >= b.lo) /\ (b.mh => x <= b.hi)
\* the nearest value in bounds
Trunc(b, x) == IF b.ml /\ x < b.lo THEN b.lo ELSE IF b.mh /\ x > b.hi THEN b.hi ELSE x
\* reflection at the bounds, as often as needed
Fold(b, x) == IF InB(b, x) THEN x
  ELSE IF b.ml /\ b.mh THEN (IF b.lo = b.hi THEN b.lo
         ELSE LET w == b.hi - b.lo y == (x - b.lo) % (2 * w) IN b.lo + (IF y <= w THEN y ELSE 2 * w - y))
  ELSE IF b.ml THEN 2 * b.lo - x ELSE 2 * b.hi - x
\* a real k/u rounded to the nearest integer, halves away from zero
RoundAway(k, u) == IF k >= 0 THEN (2 * k + u) \div (2 * u) ELSE -((2 * (-k) + u) \div (2 * u))

\* "n copies of b, then ...", stretched with the last one up to the wanted size
RECURSIVE Repeat(_, _)
Repeat(x, n) == IF n <= 0 THEN <<>> ELSE <<x>> \o Repeat(x, n - 1)
RECURSIVE Spread(_)
Spread(list) == IF list = <<>> THEN <<>> ELSE Repeat(Head(list).b, Head(list).n) \o Spread(Tail(list))
Stretch(s, n) == IF Len(s) >= n \/ s = <<>> THEN s ELSE s \o Repeat(s[Len(s)], n - Len(s))

\* ---- with measurements rounded to the unit: t units of tolerance ----
InBT(b, x, t) == (b.ml => x >= b.lo - t) /\ (b.mh => x <= b.hi + t)
Close(x, y, t) == Abs(x - y) <= t
Between(x, p, q, t) == x >= MinOf(p, q) - t /\ x <= MaxOf(p, q) + t
\* within the segment p q lengthened on both sides by a/8 of its length
Extended(x, p, q, a, t) == LET len == Abs(p - q) IN 8 * x >= 8 * MinOf(p, q) - a * len - 8 * t /\ 8 * x <= 8 * MaxOf(p, q) + a * len + 8 * t
\* all coordinates are combined with one and the same factor
OneFactor(r, p, q, t) == \A i, j \in DOMAIN p :
   LET a == r[i] - q[i] b == p[j] - q[j] c == r[j] - q[j] d == p[i] - q[i] IN Abs(a * b - c * d) <= t * (Abs(a) + Abs(b) + Abs(c) + Abs(d)) + 2 * t * t
=============================================================================
