------------------------------ MODULE BitString -----------------------------
(* Variation on bit strings (sequences over 0, 1).                           *)
EXTENDS Common

Diff(p, r) == {i \in DOMAIN p : p[i] # r[i]}
FlipAt(p, S) == [i \in DOMAIN p |-> IF i \in S THEN 1 - p[i] ELSE p[i]]
\* exactly k distinct loci flipped
IsFlip(p, r, k) == Len(r) = Len(p) /\ Cardinality(Diff(p, r)) = k
\* k flips of loci drawn independently
IsFlips(p, r, k) == Len(r) = Len(p) /\ LET d == Cardinality(Diff(p, r)) IN d <= k /\ (k - d) % 2 = 0
\* a segment read backwards
IsInversion(p, r) == \E i, j \in DOMAIN p : i <= j /\ r = SubSeqRev(p, i, j)
\* the string as a number, most significant bit first
Value(p) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, p)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
IsNext(p, r) == Len(r) = Len(p) /\ Value(r) = (Value(p) + 1) % Pow2(Len(p))
IsPrev(p, r) == Len(r) = Len(p) /\ Value(p) = (Value(r) + 1) % Pow2(Len(p))

\* the parents with the loci of S exchanged
Xchg(p, q, S) == <<[i \in DOMAIN p |-> IF i \in S THEN q[i] ELSE p[i]], [i \in DOMAIN q |-> IF i \in S THEN p[i] ELSE q[i]]>>
Common1(p, q) == 1..MinOf(Len(p), Len(q))
\* a proper prefix (possibly empty) exchanged
OnePts(p, q) == {Xchg(p, q, 1..k) : k \in 0..(MinOf(Len(p), Len(q)) - 1)}
\* loci exchanged when the points of P are crossed from left to right
Crossed(P, m) == {i \in 1..m : Cardinality({x \in P : x <= i}) % 2 = 1}
\* points lie between two loci: point i is before locus i (2 <= i); the draw may
\* spend one point before the first locus, where it changes nothing
NPts(p, q, n) == LET m == MinOf(Len(p), Len(q)) k == MinOf(m - 1, n) IN
  {Xchg(p, q, Crossed(P, m)) : P \in {X \in SUBSET (2..m) : Cardinality(X) = k \/ Cardinality(X) = k - 1}}
\* whole genes of g loci exchanged, as many as there are points
GeneLoci(G, g) == UNION {((x - 1) * g + 1)..(x * g) : x \in G}
Genes(p, q, g, n) == LET m == MinOf(Len(p), Len(q)) \div g k == MinOf(m, n) IN
  {Xchg(p, q, GeneLoci(G, g)) : G \in {X \in SUBSET (1..m) : Cardinality(X) = k}}
\* any loci exchanged
IsUniform(p, q, r, s) == /\ Len(r) = Len(p) /\ Len(s) = Len(q)
                         /\ \A i \in DOMAIN p : (r[i] = p[i] /\ s[i] = q[i]) \/ (r[i] = q[i] /\ s[i] = p[i])
\* both children together hold the parents' alleles at every locus
Locuswise(p, q, r, s) == /\ Len(r) = Len(p) /\ Len(s) = Len(q)
                         /\ \A i \in Common1(p, q) : (r[i] = p[i] /\ s[i] = q[i]) \/ (r[i] = q[i] /\ s[i] = p[i])
                         /\ \A i \in (DOMAIN p) \ Common1(p, q) : r[i] = p[i]
                         /\ \A i \in (DOMAIN q) \ Common1(p, q) : s[i] = q[i]
=============================================================================
