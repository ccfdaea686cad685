-------------------------------- MODULE Dmls --------------------------------
(* Dominance-based multi-objective local search: an unbounded archive whose  *)
(* unvisited members are selected, their neighbourhood explored, and the     *)
(* neighbours found submitted to the archive.                                *)
(*                                                                           *)
(* A member is [x, v, fl]: genotype, objective vector, visited flag.  The    *)
(* exploration of a source is recorded as [x, nb]: the neighbours evaluated, *)
(* in order, out of the K neighbours of the source.                          *)
EXTENDS Pareto

Obj(x, pb) == [i \in DOMAIN pb.c |-> (x * pb.c[i] + pb.d[i]) % pb.m]
Mem(x, pb) == [x |-> x, v |-> Obj(x, pb), fl |-> 0]

\* ---- unbounded archive (see Archive.tla)
Upd(A, m, dirs, replace) ==
  LET B == {a \in A : ~(Dominates(m.v, a.v, dirs) \/ (replace /\ a.v = m.v))}
      blocked == \E a \in B : Dominates(a.v, m.v, dirs) \/ (~replace /\ a.v = m.v)
  IN IF blocked THEN B ELSE B \cup {m}
RECURSIVE UpdSeq(_, _, _, _)
UpdSeq(A, ms, dirs, replace) == IF ms = <<>> THEN A ELSE UpdSeq(Upd(A, Head(ms), dirs, replace), Tail(ms), dirs, replace)

Unvisited(A) == {a \in A : a.fl = 0}
\* ---- selection: how many unvisited members are taken (0: all of them)
SelOk(sel, A, num) ==
  /\ NoDup(sel)
  /\ \A i \in DOMAIN sel : \E a \in Unvisited(A) : a.x = sel[i]
  /\ Len(sel) = (IF num = 0 THEN Cardinality(Unvisited(A)) ELSE MinOf(num, Cardinality(Unvisited(A))))

\* ---- exploration of source s when the K neighbours nb are presented in order
Improves(s, m, dirs) == Dominates(m.v, s.v, dirs)
Worsens(s, m, dirs) == Dominates(s.v, m.v, dirs)
\* number of neighbours looked at
Looked(kind, num, s, nb, pb, dirs) ==
  LET N == Len(nb)
      first(P(_)) == LET H == {i \in 1..N : P(Mem(nb[i], pb))} IN IF H = {} THEN N ELSE Min(H)
  IN CASE kind = "exhaustive" -> N
       [] kind = "simple" -> MinOf(num, N)
       [] kind = "first" -> first(LAMBDA m : Improves(s, m, dirs))
       [] kind = "nodes" -> first(LAMBDA m : ~Worsens(s, m, dirs))
\* what is submitted to the archive
Produced(kind, s, nb, pb, dirs) ==
  LET ms == [i \in DOMAIN nb |-> Mem(nb[i], pb)]
  IN IF kind \in {"exhaustive", "simple"} THEN ms ELSE SelectSeq(ms, LAMBDA m : ~Worsens(s, m, dirs))
\* the source is visited when its neighbourhood was looked at completely
Done(nb, K) == Len(nb) = K

\* ---- the archive at the end of a round
RECURSIVE AllProduced(_, _, _, _, _)
AllProduced(kind, ex, A, pb, dirs) ==
  IF ex = <<>> THEN <<>>
  ELSE LET s == CHOOSE a \in A : a.x = Head(ex).x
       IN Produced(kind, s, Head(ex).nb, pb, dirs) \o AllProduced(kind, Tail(ex), A, pb, dirs)
Marked(A, ex, K) == {IF \E i \in DOMAIN ex : ex[i].x = a.x /\ Done(ex[i].nb, K) THEN [a EXCEPT !.fl = 1] ELSE a : a \in A}
RoundEnd(A, kind, ex, K, pb, dirs, replace) == UpdSeq(Marked(A, ex, K), AllProduced(kind, ex, A, pb, dirs), dirs, replace)

\* ---- properties of an archive
AllVisited(A) == Unvisited(A) = {}
NonDom(A, dirs) == \A a, b \in A : ~Dominates(a.v, b.v, dirs)
\* no neighbour of a visited member is better than, or incomparable to, the archive
Closed(A, Nbs(_), pb, dirs) ==
  \A a \in {m \in A : m.fl = 1} : \A y \in Nbs(a.x) : \E b \in A : WeaklyDominates(b.v, Obj(y, pb), dirs)
=============================================================================
