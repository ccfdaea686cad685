--------------------------- MODULE IslandModel ---------------------------
(* Design of the shared-memory island model: every emission travels through *)
(* an asynchronous call into the model's queue, is copied by the model's    *)
(* thread to the neighbours the topology names at that moment through       *)
(* further asynchronous calls, and waits in the receiver's queue until the  *)
(* receiver looks at it, at the latest after every island has stopped.      *)
(* A stopped island is taken out of the topology once the model notices.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, G0, K
Isl == 0 .. (N - 1)
VARIABLES topo, todo, ipc, calls, queue, known, mpc, posts, inbox, done, sent, drained
vars == <<topo, todo, ipc, calls, queue, known, mpc, posts, inbox, done, sent, drained>>
Graph == IF G0 = "complete" THEN [i \in Isl |-> Isl \ {i}]
         ELSE IF G0 = "ring" THEN [i \in Isl |-> {(i + 1) % N} \ {i}]
         ELSE [i \in Isl |-> {0} \ {i}]
\* emission number k of island i
Msg(i, k) == i * 10 + k
Init == /\ topo = Graph /\ todo = [i \in Isl |-> K] /\ ipc = [i \in Isl |-> "run"] /\ calls = {} /\ queue = <<>>
        /\ known = Isl /\ mpc = "loop" /\ posts = {} /\ inbox = [i \in Isl |-> {}] /\ done = [i \in Isl |-> {}]
        /\ sent = [m \in {} |-> [from |-> 0, ids |-> <<>>]] /\ drained = {}
\* ---- island threads
Emit(i) == /\ ipc[i] = "run" /\ todo[i] > 0
           /\ LET m == Msg(i, todo[i]) IN
              /\ calls' = calls \cup {m}
              /\ sent' = [x \in (DOMAIN sent) \cup {m} |-> IF x = m THEN [from |-> i, ids |-> <<>>] ELSE sent[x]]
           /\ todo' = [todo EXCEPT ![i] = @ - 1]
           /\ UNCHANGED <<topo, ipc, queue, known, mpc, posts, inbox, done, drained>>
Receive(i) == /\ ipc[i] = "run" \/ mpc = "receive"
              /\ \E m \in inbox[i] : inbox' = [inbox EXCEPT ![i] = @ \ {m}] /\ done' = [done EXCEPT ![i] = @ \cup {m}]
              /\ UNCHANGED <<topo, todo, ipc, calls, queue, known, mpc, posts, sent, drained>>
Halt(i) == ipc[i] = "run" /\ ipc' = [ipc EXCEPT ![i] = "stopped"] /\ UNCHANGED <<topo, todo, calls, queue, known, mpc, posts, inbox, done, sent, drained>>
Exit(i) == /\ ipc[i] = "stopped" /\ \A m \in calls : sent[m].from # i
           /\ ipc' = [ipc EXCEPT ![i] = "gone"] /\ UNCHANGED <<topo, todo, calls, queue, known, mpc, posts, inbox, done, sent, drained>>
\* ---- asynchronous calls
Call == \E m \in calls : calls' = calls \ {m} /\ queue' = Append(queue, m) /\ UNCHANGED <<topo, todo, ipc, known, mpc, posts, inbox, done, sent, drained>>
Post == \E p \in posts : posts' = posts \ {p} /\ inbox' = [inbox EXCEPT ![p[2]] = @ \cup {p[1]}] /\ UNCHANGED <<topo, todo, ipc, calls, queue, known, mpc, done, sent, drained>>
\* ---- the model's thread
Notice == /\ mpc = "loop" /\ \E i \in known : ipc[i] # "run"
             /\ known' = known \ {i}
             /\ topo' = [j \in Isl |-> IF j = i THEN {} ELSE topo[j] \ {i}]
          /\ UNCHANGED <<todo, ipc, calls, queue, mpc, posts, inbox, done, sent, drained>>
Dispatch == /\ mpc \in {"loop", "drain"} /\ queue # <<>>
            /\ LET m == Head(queue) i == sent[m].from IN
               /\ posts' = posts \cup {<<m, j>> : j \in topo[i]}
               /\ drained' = drained \cup {<<m, j>> : j \in Graph[i] \ topo[i]}
            /\ queue' = Tail(queue)
            /\ UNCHANGED <<topo, todo, ipc, calls, known, mpc, inbox, done, sent>>
Leave == mpc = "loop" /\ known = {} /\ mpc' = "join" /\ UNCHANGED <<topo, todo, ipc, calls, queue, known, posts, inbox, done, sent, drained>>
JoinAll == /\ mpc = "join" /\ (\A i \in Isl : ipc[i] = "gone") /\ posts = {} /\ mpc' = "drain"
           /\ UNCHANGED <<topo, todo, ipc, calls, queue, known, posts, inbox, done, sent, drained>>
Drained == mpc = "drain" /\ queue = <<>> /\ mpc' = "receive" /\ UNCHANGED <<topo, todo, ipc, calls, queue, known, posts, inbox, done, sent, drained>>
Return == mpc = "receive" /\ (\A i \in Isl : inbox[i] = {}) /\ mpc' = "end" /\ UNCHANGED <<topo, todo, ipc, calls, queue, known, posts, inbox, done, sent, drained>>
Island(i) == Emit(i) \/ Receive(i) \/ Halt(i) \/ Exit(i)
Model == Notice \/ Dispatch \/ Leave \/ JoinAll \/ Drained \/ Return
Next == Model \/ Call \/ Post \/ \E i \in Isl : Island(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Model) /\ WF_vars(Call) /\ WF_vars(Post)
             /\ \A i \in Isl : WF_vars(Halt(i)) /\ WF_vars(Exit(i)) /\ WF_vars(Receive(i))

\* ---- the promise, seen from here
mlive == {i \in Isl : ipc[i] = "run"}
mowed == {p \in {<<m, j>> : m \in DOMAIN sent, j \in Isl} : p[2] \in Graph[sent[p[1]].from] /\ p[1] \notin done[p[2]] /\ p \notin drained}
M == INSTANCE Migration WITH g <- Graph, pop <- [i \in Isl |-> <<>>], owed <- mowed, live <- mlive
Refines == [][\/ UNCHANGED M!mvars
              \/ \E i \in Isl, m \in 0 .. 99 : M!Emit(i, m, <<>>)
              \/ \E i \in Isl, m \in DOMAIN sent : M!Integrate(i, m, <<>>)
              \/ \E i \in Isl : M!Stop(i)
              \/ \E m \in DOMAIN sent : \E S \in SUBSET Isl : \* one dispatch may drop several copies at once
                   mowed' = mowed \ {<<m, j>> : j \in S} /\ (\A j \in S : sent[m].from \notin mlive \/ j \notin mlive)]_vars
OnlyNeighbours == \A j \in Isl : \A m \in done[j] : j \in Graph[sent[m].from]
\* what was never integrated was dropped at a stop: nothing is left anywhere
NothingLeft == mpc = "end" => mowed = {} /\ posts = {} /\ calls = {} /\ queue = <<>> /\ \A i \in Isl : ipc[i] = "gone" /\ inbox[i] = {}
Ends == <>(mpc = "end")
==========================================================================
