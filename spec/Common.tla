------------------------------- MODULE Common -------------------------------
(* Small vocabulary shared by all specifications: sums, sequences seen as    *)
(* multisets, permutations, orders.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA acc, x : acc * x, 1, s)
SumFun(f, S) == FoldSet(LAMBDA x, acc : acc + f[x], 0, S)

CountIn(x, s) == Cardinality({i \in DOMAIN s : s[i] = x})
\* the multiset of the elements of a sequence
MultiOf(s) == [x \in ToSet(s) |-> CountIn(x, s)]
SameMulti(s, t) == Len(s) = Len(t) /\ MultiOf(s) = MultiOf(t)
\* multiset inclusion
MultiIn(s, t) == \A x \in ToSet(s) : CountIn(x, s) <= CountIn(x, t)

\* integer square root (floor)
RECURSIVE ISqrtR(_, _, _)
ISqrtR(n, lo, hi) == IF lo >= hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2
                          IN IF m * m <= n THEN ISqrtR(n, m, hi) ELSE ISqrtR(n, lo, m - 1)
ISqrt(n) == ISqrtR(n, 0, MinOf(n, 46340))

\* i is a legal index of s
Ix(s) == 1..Len(s)
IsPermOf(s, t) == SameMulti(s, t)
SwapAt(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
SubSeqRev(s, i, j) == [k \in DOMAIN s |-> IF k >= i /\ k <= j THEN s[i + j - k] ELSE s[k]]
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
IsSortedBy(s, Leq(_, _)) == \A i \in 1..(Len(s) - 1) : Leq(s[i], s[i + 1])
=============================================================================
