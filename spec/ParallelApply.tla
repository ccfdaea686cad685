-------------------------- MODULE ParallelApply --------------------------
(* What a parallel apply promises: a functor is called once on every        *)
(* individual 1..n by at most w threads at a time, and the call returns     *)
(* when all those calls have.                                               *)
EXTENDS Integers, FiniteSets
VARIABLES n, w, todo, busy, over
pvars == <<n, w, todo, busy, over>>
Idle == over /\ busy = {} /\ todo = {}
Begin(k, t) == /\ over /\ n' = k /\ w' = t /\ todo' = 1 .. k /\ busy' = {} /\ over' = FALSE
\* thread t enters / leaves the functor with individual i
Enter(i, t) == /\ ~over /\ i \in todo /\ todo' = todo \ {i}
               /\ \A b \in busy : b[2] # t
               /\ Cardinality(busy) < w
               /\ busy' = busy \cup {<<i, t>>} /\ UNCHANGED <<n, w, over>>
Leave(i, t) == ~over /\ <<i, t>> \in busy /\ busy' = busy \ {<<i, t>>} /\ UNCHANGED <<n, w, todo, over>>
Finish == ~over /\ todo = {} /\ busy = {} /\ over' = TRUE /\ UNCHANGED <<n, w, todo, busy>>
==========================================================================
