---------------------------- MODULE Permutation -----------------------------
(* Variation on permutations.  A permutation is a sequence without           *)
(* repetition over any set of elements; every operator is the set of results *)
(* its random choices can lead to.                                           *)
EXTENDS Common

IsPerm(p, S) == Len(p) = Cardinality(S) /\ ToSet(p) = S

Pos(p, x) == CHOOSE i \in DOMAIN p : p[i] = x

\* the number of cycles of the rearrangement leading from p to q
RECURSIVE Orbit(_, _, _, _)
Orbit(p, q, i, seen) == IF i \in seen THEN seen ELSE Orbit(p, q, Pos(p, q[i]), seen \cup {i})
Cycles(p, q) == Cardinality({i \in DOMAIN p : \A j \in Orbit(p, q, i, {}) : i <= j})
\* q is p after exactly k exchanges of two distinct positions
IsSwaps(p, q, k) == /\ IsPermOf(q, p)
                    /\ IF Len(p) < 2 THEN q = p
                       ELSE LET d == Len(p) - Cycles(p, q) IN d <= k /\ (k - d) % 2 = 0
Swaps(p) == {SwapAt(p, i, j) : i, j \in DOMAIN p} \ {p}

\* the element at position i taken out and put back at position j
MoveTo(p, i, j) == InsertAt(RemoveAt(p, i), j, p[i])
Shifts(p) == IF Len(p) < 2 THEN {p} ELSE {MoveTo(p, ij[1], ij[2]) : ij \in {x \in (DOMAIN p) \X (DOMAIN p) : x[1] # x[2]}}

TwoOpts(p) == IF Len(p) < 2 THEN {p} ELSE {SubSeqRev(p, ij[1], ij[2]) : ij \in {x \in (DOMAIN p) \X (DOMAIN p) : x[1] < x[2]}}

\* the elements of q read cyclically from position s in direction d
Cyclic(q, s, d) == [i \in DOMAIN q |-> q[(((s - 1) + d * (i - 1) + Len(q)) % Len(q)) + 1]]
\* order crossover: the block a..b of p, then the other elements in the cyclic order of q
OXChild(p, q, a, b, d) == LET blk == SubSeq(p, a, b) IN blk \o SelectSeq(Cyclic(q, Pos(q, p[b]), d), LAMBDA x : x \notin ToSet(blk))
OXs(p, q) == {<<OXChild(p, q, c[1], c[2], c[3]), OXChild(q, p, c[1], c[2], c[3])>> : c \in {x \in (DOMAIN p) \X (DOMAIN p) \X {-1, 1} : x[1] <= x[2]}}

\* partially mapped crossover: positions a..b come from q; elsewhere the own
\* element, replaced through the exchanged pairs as long as it is already there
RECURSIVE Mapped(_, _, _, _, _)
Mapped(p, q, a, b, x) == LET hit == {k \in a..b : q[k] = x} IN IF hit = {} THEN x ELSE Mapped(p, q, a, b, p[CHOOSE k \in hit : TRUE])
PMXChild(p, q, a, b) == [i \in DOMAIN p |-> IF i >= a /\ i <= b THEN q[i] ELSE Mapped(p, q, a, b, p[i])]
PMXs(p, q) == IF Len(p) < 2 THEN {<<p, q>>} ELSE {<<PMXChild(p, q, c[1], c[2]), PMXChild(q, p, c[1], c[2])>> : c \in {x \in (DOMAIN p) \X (DOMAIN p) : x[1] < x[2]}}
=============================================================================
