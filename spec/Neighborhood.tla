---------------------------- MODULE Neighborhood ----------------------------
(* Exploring the neighbourhood of a solution: init, next, cont.  A neighbour *)
(* is named by a sequence of integers: its index, the two positions it       *)
(* exchanges, the set of bits it flips (sorted), the atoms it exchanges.     *)
EXTENDS Common
Nat0(n) == 0..(n - 1)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE IF n < k THEN 0 ELSE (Choose(n - 1, k - 1) * n) \div k
Sorted(S) == SetToSortSeq(S, <)
\* all the neighbours a structure announces
All(c) ==
  CASE c.space = "index" -> {<<i>> : i \in Nat0(c.n)}
    [] c.space = "pairs" -> {<<i, j>> : i \in Nat0(c.n), j \in Nat0(c.n)} \ {<<i, j>> \in Nat0(c.n) \X Nat0(c.n) : i >= j}
    [] c.space = "shift" -> {p \in Nat0(c.n) \X (0..c.n) : p[2] # p[1] /\ p[2] # p[1] + 1}
    [] c.space = "bits" -> {Sorted(S) : S \in UNION {kSubset(d, Nat0(c.n)) : d \in (IF c.exact THEN {c.k} ELSE 1..c.k)}}
    [] c.space = "subsets" -> {Sorted(S) : S \in SUBSET Nat0(c.n)}
    [] c.space = "partition" -> ToSet(c.rejected) \X ToSet(c.selected)
\* how many neighbours an exploration shows before it reports exhaustion;
\* -1: never exhausted
Budget(c) ==
  LET total == Cardinality(All(c))
  IN CASE c.rule = "once" -> IF c.limit = 0 THEN total ELSE MinOf(c.limit, total)
       [] c.rule = "repl" -> IF c.limit = 0 THEN -1 ELSE c.limit
       \* bit-string samples with replacement never exceed the number of neighbours
       [] c.rule = "sample" -> IF c.limit = 0 THEN total ELSE MinOf(c.limit, total)
Has(c) == All(c) # {}
\* what next (or init, with nothing seen) may show
Shown(c, seen, m) == m \in All(c) /\ (c.rule = "once" => m \notin ToSet(seen))
Goes(c, seen) == Budget(c) = -1 \/ Len(seen) < Budget(c)
=============================================================================
