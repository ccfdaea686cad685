-------------------------- MODULE MC_Neighborhood ---------------------------
EXTENDS Neighborhood
VARIABLES c, seen, st
vars == <<c, seen, st>>
Cfgs == {[space |-> "index", n |-> 4, rule |-> r, limit |-> li, exact |-> FALSE, k |-> 0] : r \in {"once", "repl", "sample"}, li \in 0..2}
   \cup {[space |-> s, n |-> 3, rule |-> "once", limit |-> 0, exact |-> ex, k |-> 2] : s \in {"pairs", "shift", "bits"}, ex \in BOOLEAN}
Init == c \in Cfgs /\ seen = <<>> /\ st = "idle"
Start == \E m \in All(c) : seen' = <<m>> /\ st' = "run" /\ UNCHANGED c
Next1 == st = "run" /\ Goes(c, seen) /\ Len(seen) < 6 /\ \E m \in All(c) : Shown(c, seen, m) /\ seen' = Append(seen, m) /\ UNCHANGED <<c, st>>
Stop == st = "run" /\ ~Goes(c, seen) /\ st' = "done" /\ UNCHANGED <<c, seen>>
Next == Start \/ Next1 \/ Stop
Spec == Init /\ [][Next]_vars
\* an exhausted exploration without limit has shown everything exactly once
Complete == st = "done" /\ c.rule = "once" /\ c.limit = 0 => ToSet(seen) = All(c) /\ NoDup(seen)
Valid == ToSet(seen) \subseteq All(c)
NeverStuck == st = "run" /\ Goes(c, seen) /\ c.rule = "once" => \E m \in All(c) : Shown(c, seen, m)
\* the closed forms used for sizes
ASSUME \A n \in 1..6 : /\ Cardinality(All([space |-> "pairs", n |-> n])) = Choose(n, 2)
                       /\ Cardinality(All([space |-> "shift", n |-> n])) = n * (n - 1)
                       /\ \A k \in 1..n : Cardinality(All([space |-> "bits", n |-> n, k |-> k, exact |-> TRUE])) = Choose(n, k)
=============================================================================
