--------------------------- MODULE MC_Topology ---------------------------
EXTENDS Topology
CONSTANT MaxN
VARIABLES kind, g, alive, orig
vars == <<kind, g, alive, orig>>
Kinds == {"complete", "ring", "star", "hyper", "mesh"}
Ratios == {0, 100, 250, 400, 500, 750, 1000}
Init == \E k \in Kinds, n \in 1 .. MaxN, c \in 0 .. 2, r \in Ratios :
          /\ Admissible(k, n, c)
          /\ (k = "star" \/ c = 0) /\ (k = "mesh" \/ r = 0)
          /\ kind = k /\ orig \in Shapes(k, n, c, r) /\ g = orig /\ alive = Nodes(n)
Cut == \E i \in alive : g' = Isolate(g, i) /\ alive' = alive \ {i} /\ UNCHANGED <<kind, orig>>
Next == Cut
Spec == Init /\ [][Next]_vars

Sane == Loopless(g) /\ InRange(g)
\* isolated nodes have no edge left; the others keep exactly the edges between them
Cleanly == \A i, j \in DOMAIN g : (j \in g[i]) = (i \in alive /\ j \in alive /\ j \in orig[i])
Degrees ==
  /\ kind = "complete" => \A i \in DOMAIN orig : Cardinality(orig[i]) = Cardinality(DOMAIN orig) - 1
  /\ kind = "ring" => \A i \in DOMAIN orig : Cardinality(orig[i]) = (IF Cardinality(DOMAIN orig) = 1 THEN 0 ELSE 1)
  /\ kind = "hyper" => \A i \in DOMAIN orig : Cardinality(orig[i]) = Dims(Cardinality(DOMAIN orig))
  /\ kind = "mesh" => \A i \in DOMAIN orig : Cardinality(orig[i]) <= 4
Shape ==
  /\ kind \in {"complete", "hyper", "mesh"} => Symmetric(g)
  /\ (alive = DOMAIN g /\ kind # "star") => StronglyConnected(g)
==========================================================================
