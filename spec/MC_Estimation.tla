--------------------------- MODULE MC_Estimation ----------------------------
(* Every small sample: what an estimate of it must satisfy.                  *)
EXTENDS Estimation
CONSTANTS V, N
VARIABLES X
vars == <<X>>
Points == {<<a, b>> : a, b \in V}
Init == X \in UNION {[1..n -> Points] : n \in 1..N}
\* moving one point of the sample
Next == \E i \in DOMAIN X : \E p \in Points : X' = [X EXCEPT ![i] = p]
Spec == Init /\ [][Next]_vars
Moved == [i \in DOMAIN X |-> <<X[i][1] + 3, X[i][2] - 2>>]
Between == \A j \in 1..2 : Lows(X)[j] * Len(X) <= MeanN(X, j) /\ MeanN(X, j) <= Highs(X)[j] * Len(X)
Positive == CovN(X, 1, 1) >= 0 /\ CovN(X, 2, 2) >= 0 /\ CovN(X, 1, 1) * CovN(X, 2, 2) >= CovN(X, 1, 2) * CovN(X, 2, 1)
Symmetric == CovN(X, 1, 2) = CovN(X, 2, 1)
Centred == \A j, k \in 1..2 : CovN(Moved, j, k) = CovN(X, j, k)
Flat == CovN(X, 1, 1) = 0 <=> Lows(X)[1] = Highs(X)[1]
Repairs == \A q \in -9..9 : /\ Down4(q) <= q /\ q < Down4(q) + 4 /\ Up4(q) >= q /\ q > Up4(q) - 4
  /\ Abs(Near4(q) - q) <= 2 /\ Abs(4 * Tenths(q) - 10 * q) <= 2 /\ Near4(-q) = -Near4(q)
  /\ \A d \in 1..5 : Abs(Rest(q, d)) < d /\ (q - Rest(q, d)) % d = 0
  /\ \A lo \in -2..0, hi \in 0..2 : Inside(Clamp(q, lo, hi), lo, hi) /\ (Inside(q, lo, hi) => Clamp(q, lo, hi) = q)
=============================================================================
