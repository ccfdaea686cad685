------------------------------ MODULE MC_Trees ------------------------------
(* Two trees under every variation, for every choice of nodes.               *)
EXTENDS Trees
CONSTANTS Nodes, S, Lim
VARIABLES a, b
vars == <<a, b>>
Seqs(n) == UNION {[1..k -> Nodes] : k \in 1..n}
Wf(n) == {t \in Seqs(n) : WellFormed(t)}
T == Wf(S)
\* what pruning does, step by step: the first argument of the root
RECURSIVE Prune(_, _)
Prune(t, max) == IF max < 1 \/ Len(t) <= max THEN t ELSE Prune(Sub(t, Len(t) - 1), max)
Init == a \in Wf(Lim) /\ b \in Wf(Lim)
Cross == \E i \in DOMAIN a : \E j \in DOMAIN b : a' = Prune(Put(a, i, Sub(b, j)), Lim) /\ b' = Prune(Put(b, j, Sub(a, i)), Lim)
Branch == \E i \in DOMAIN a : \E s \in T : a' = Prune(Put(a, i, s), Lim) /\ b' = b
Hoist == \E i \in DOMAIN a : a' = Sub(a, i) /\ b' = b
Point == \E i \in DOMAIN a : \E n \in Nodes : Ar(n) = Ar(a[i]) /\ a' = [a EXCEPT ![i] = n] /\ b' = b
Swap == a' = b /\ b' = a
Next == Cross \/ Branch \/ Hoist \/ Point \/ Swap
Spec == Init /\ [][Next]_vars
Fine == WellFormed(a) /\ WellFormed(b) /\ Len(a) <= Lim /\ Len(b) <= Lim
Counts == /\ CumAt(a, Len(a)) = SumSeq([i \in DOMAIN a |-> Level(a, i)]) /\ Depth(a) <= Len(a)
          /\ \A i \in DOMAIN a : Depth(Sub(a, i)) = DepthAt(a, i) /\ Put(a, i, Sub(a, i)) = a
Prunes == \A i \in DOMAIN a : \A s \in T : Fits2(Put(a, i, s), Lim, Prune(Put(a, i, s), Lim))
Ways == [][Crossed(a, b, Lim, a', b') \/ Hoisted(a, a') \/ Pointed(a, Nodes, a') \/ (a' = b /\ b' = a) \/ (\E new \in T : Branched(a, new, Lim, a'))]_vars
=============================================================================
