---------------------------- MODULE Assignment ----------------------------
(* How tasks are shared among workers. A dynamic strategy serves any idle    *)
(* worker. A static one shares a number of runs equally (shares differ by at *)
(* most one) and serves idle workers below their share. A worker served is   *)
(* busy until its answer is confirmed.                                       *)
EXTENDS Integers, FiniteSets
VARIABLES workers, occupied, given, allowed      \* allowed = -1: no limit
avars == <<workers, occupied, given, allowed>>
ASum(f, S) == LET RECURSIVE G(_)
                  G(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f[x] + G(T \ {x})
              IN  G(S)
Share == allowed \div Cardinality(workers)
Extra == allowed % Cardinality(workers)
Extras == {v \in workers : given[v] > Share}
Below(v) == allowed = -1 \/ given[v] < Share \/ (given[v] = Share /\ Cardinality(Extras) < Extra)
Candidates == {v \in workers \ occupied : Below(v)}
Setup(W, k) == workers' = W /\ occupied' = {} /\ given' = [v \in W |-> 0] /\ allowed' = k
Serve(v) == /\ v \in Candidates /\ occupied' = occupied \cup {v}
            /\ given' = [given EXCEPT ![v] = given[v] + 1] /\ UNCHANGED <<workers, allowed>>
\* nobody is served: certainly right without candidates; which workers get the
\* odd runs is the strategy's choice, so with somebody busy it may also wait
Nobody == /\ TRUE = (\/ Candidates = {}
                     \/ /\ allowed # -1 /\ occupied # {}
                        /\ \A v \in workers \ occupied : given[v] >= Share)
          /\ UNCHANGED avars
Confirm(v) == v \in occupied /\ occupied' = occupied \ {v} /\ UNCHANGED <<workers, given, allowed>>
Renew(k) == occupied = {} /\ given' = [v \in workers |-> 0] /\ allowed' = (IF allowed = -1 THEN -1 ELSE k) /\ UNCHANGED <<workers, occupied>>
Fair == allowed # -1 => /\ \A v \in workers : given[v] <= Share + 1
                        /\ Cardinality(Extras) <= Extra
                        /\ ASum(given, workers) <= allowed
==========================================================================
