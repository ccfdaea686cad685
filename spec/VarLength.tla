----------------------------- MODULE VarLength ------------------------------
(* Variable-length genotypes: sequences of atoms.  Crossovers redistribute   *)
(* atoms between the parents within length limits lo..hi; mutations add,     *)
(* remove or alter atoms.                                                    *)
EXTENDS Common
Pick(p, S) == LET o == SetToSortSeq(S, <) IN [i \in DOMAIN o |-> p[o[i]]]
\* a part of p followed by a part of q / what is left of both
PartOf(p, q, S, T) == Pick(p, S) \o Pick(q, T)
RestOf(p, q, S, T) == Pick(p, (DOMAIN p) \ S) \o Pick(q, (DOMAIN q) \ T)
InLim(n, lo, hi) == n >= lo /\ n <= hi
\* decided directly: walk through s looking for r
RECURSIVE Within(_, _)
Within(r, s) == IF r = <<>> THEN TRUE ELSE IF s = <<>> THEN FALSE ELSE IF Head(r) = Head(s) THEN Within(Tail(r), Tail(s)) ELSE Within(r, Tail(s))
PartBy(r, p, q) == \E k \in 0..Len(r) : Within(SubSeq(r, 1, k), p) /\ Within(SubSeq(r, k + 1, Len(r)), q)
\* redistribution of the atoms of p and q over r and s
Redistributed(p, q, r, s, lo, hi) == /\ PartBy(r, p, q) /\ PartBy(s, p, q) /\ SameMulti(r \o s, p \o q)
                                     /\ InLim(Len(r), lo, hi) /\ InLim(Len(s), lo, hi)
\* can the atoms be shared out within the limits at all?
CanShare(n, lo, hi) == \E a \in 0..n : InLim(a, lo, hi) /\ InLim(n - a, lo, hi)
CanTake(n, lo, hi) == \E a \in 0..n : InLim(a, lo, hi)
Insertions(p, x) == {SubSeq(p, 1, i) \o <<x>> \o SubSeq(p, i + 1, Len(p)) : i \in 0..Len(p)}
Deletions(p) == {SubSeq(p, 1, i - 1) \o SubSeq(p, i + 1, Len(p)) : i \in DOMAIN p}
=============================================================================
