---------------------------- MODULE Migration ----------------------------
(* What an island model promises.  g is the communication graph, pop the    *)
(* populations, sent the emissions so far, owed the copies still to be      *)
(* integrated, live the islands that have not stopped.                      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES g, pop, sent, owed, live
mvars == <<g, pop, sent, owed, live>>
\* island i selects `ids' as emigrants: its population stays as it is, one copy is owed to each neighbour
Emit(i, m, ids) == /\ i \in live /\ m \notin DOMAIN sent
                   /\ \A k \in 1 .. Len(ids) : \E q \in 1 .. Len(pop[i]) : pop[i][q] = ids[k]
                   /\ sent' = [x \in (DOMAIN sent) \cup {m} |-> IF x = m THEN [from |-> i, ids |-> ids] ELSE sent[x]]
                   /\ owed' = owed \cup {<<m, j>> : j \in g[i]}
                   /\ UNCHANGED <<g, pop, live>>
\* island j hands the copy of emission m to its integration policy, which turns its population into `after'
Integrate(j, m, after) == /\ <<m, j>> \in owed /\ owed' = owed \ {<<m, j>>}
                          /\ pop' = [pop EXCEPT ![j] = after] /\ UNCHANGED <<g, sent, live>>
Stop(i) == i \in live /\ live' = live \ {i} /\ UNCHANGED <<g, pop, sent, owed>>
\* a copy may only vanish when its sender or its receiver has stopped
Drop(m, j) == /\ <<m, j>> \in owed /\ (sent[m].from \notin live \/ j \notin live)
              /\ owed' = owed \ {<<m, j>>} /\ UNCHANGED <<g, pop, sent, live>>
==========================================================================
