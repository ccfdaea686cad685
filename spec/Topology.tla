---------------------------- MODULE Topology ----------------------------
(* Communication graphs between islands.  A graph over the nodes 0..n-1 is  *)
(* a function giving every node the set of nodes it sends to.  Building a   *)
(* graph of a given shape replaces whatever was there; isolating a node     *)
(* takes it out of every neighbourhood and leaves the rest alone.           *)
EXTENDS Common, FiniteSets

Nodes(n) == 0 .. (n - 1)

CompleteG(n) == [i \in Nodes(n) |-> Nodes(n) \ {i}]

\* one way round; a lone node has nobody to send to
RingG(n) == [i \in Nodes(n) |-> {(i + 1) % n} \ {i}]

\* everybody sends to the centre, which only receives
StarG(n, c) == [i \in Nodes(n) |-> {c} \ {i}]

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE Dims(_)
Dims(n) == IF n <= 1 THEN 0 ELSE 1 + Dims(n \div 2)
Toggle(i, b) == IF (i \div Pow2(b)) % 2 = 0 THEN i + Pow2(b) ELSE i - Pow2(b)
HyperG(n) == [i \in Nodes(n) |-> {Toggle(i, b) : b \in 0 .. (Dims(n) - 1)}]

\* a grid of `h' rows; the nodes are numbered row by row
GridG(n, h) ==
  LET w == n \div h
      Row(i) == i \div w
      Col(i) == i % w
  IN [i \in Nodes(n) |-> {j \in Nodes(n) : Abs(Row(i) - Row(j)) + Abs(Col(i) - Col(j)) = 1}]

\* the heights a mesh of n nodes may take: exact grids, never taller than wide
Heights(n) == {h \in 1 .. n : n % h = 0 /\ h * h <= n}
\* height/width is as close to ratio (in thousandths) as any grid allows
Miss(n, h, ratio) == Abs(1000 * h * h - ratio * n)
BestHeights(n, ratio) == {h \in Heights(n) : \A k \in Heights(n) : Miss(n, h, ratio) <= Miss(n, k, ratio)}

Shapes(kind, n, c, ratio) ==
  CASE kind = "complete" -> {CompleteG(n)}
    [] kind = "ring" -> {RingG(n)}
    [] kind = "star" -> {StarG(n, c)}
    [] kind = "hyper" -> {HyperG(n)}
    [] kind = "mesh" -> {GridG(n, h) : h \in BestHeights(n, ratio)}

Admissible(kind, n, c) ==
  CASE kind = "star" -> n > 0 /\ c \in Nodes(n)
    [] kind = "hyper" -> n > 0 /\ n = Pow2(Dims(n))
    [] OTHER -> n > 0

\* a graph written as a matrix, one line per node; blank lines do not count
Lines(m) == SelectSeq(m, LAMBDA r : r # <<>>)
Square(m) == LET p == Lines(m) IN \A i \in 1 .. Len(p) : Len(p[i]) = Len(p)
MatrixG(m) == LET p == Lines(m) IN [i \in Nodes(Len(p)) |-> {j \in Nodes(Len(p)) : p[i + 1][j + 1] # 0}]

Isolate(g, k) == [i \in DOMAIN g |-> IF i = k THEN {} ELSE g[i] \ {k}]

Loopless(g) == \A i \in DOMAIN g : i \notin g[i]
InRange(g) == \A i \in DOMAIN g : g[i] \subseteq DOMAIN g
Symmetric(g) == \A i, j \in DOMAIN g : (j \in g[i]) = (i \in g[j])
RECURSIVE Reach(_, _)
Reach(g, S) == LET T == S \cup UNION {g[i] : i \in S} IN IF T = S THEN S ELSE Reach(g, T)
StronglyConnected(g) == \A i \in DOMAIN g : Reach(g, {i}) = DOMAIN g
=========================================================================
