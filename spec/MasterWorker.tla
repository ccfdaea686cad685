--------------------------- MODULE MasterWorker ---------------------------
(* The design of the distributed jobs: a master deals packets of the table   *)
(* 1..N to workers chosen by an assignment strategy, over one channel of     *)
(* commands and one of data per worker, and gathers the results; then it     *)
(* frees the idle workers, waits for the others, and, in a lasting job, runs *)
(* further rounds before killing the workers. Channels hold at most Cap      *)
(* messages (a send waits for room).                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Workers, Packet, Static, Lasting, Rounds, Cap
VARIABLES mpc, dealt, held, todo, quota, left, target, cmd, dat, ans, wpc, mine, work, table, round
vars == <<mpc, dealt, held, todo, quota, left, target, cmd, dat, ans, wpc, mine, work, table, round>>
Packets == (N + Packet - 1) \div Packet
None == 0
\* held: the packet each worker is known to hold ({} = idle); left: workers still to be sent an order
Shares == IF ~Static THEN {[v \in Workers |-> Packets + 1]}
          ELSE {f \in [Workers -> 0 .. Packets] :
                  /\ \A a, b \in Workers : f[a] - f[b] \in -1 .. 1
                  /\ LET RECURSIVE G(_)
                         G(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f[x] + G(T \ {x})
                     IN  G(Workers) = Packets}
Init == /\ mpc = "new" /\ dealt = 0 /\ held = [v \in Workers |-> {}] /\ todo = {} /\ quota \in Shares
        /\ left = {} /\ target = None /\ cmd = [v \in Workers |-> <<>>] /\ dat = [v \in Workers |-> <<>>] /\ ans = [v \in Workers |-> <<>>]
        /\ wpc = [v \in Workers |-> "order"] /\ mine = [v \in Workers |-> {}] /\ work = [v \in Workers |-> {}]
        /\ table = [i \in 1 .. N |-> 0] /\ round = 0
Room(q) == Len(q) < Cap
Idle == {v \in Workers : held[v] = {}}
Eligible == {v \in Idle : quota[v] > 0}
MStart == /\ mpc = "new" /\ round < Rounds /\ mpc' = "loop" /\ dealt' = 0 /\ round' = round + 1
          /\ quota' \in Shares /\ todo' = 1 .. N /\ table' = [i \in 1 .. N |-> 0]
          /\ UNCHANGED <<held, left, target, cmd, dat, ans, wpc, mine, work>>
\* one more packet: the order, then the data
MOrder == /\ mpc = "loop" /\ dealt < N
          /\ \E v \in Eligible : /\ Room(cmd[v]) /\ cmd' = [cmd EXCEPT ![v] = Append(@, "continue")] /\ target' = v
          /\ mpc' = "data" /\ UNCHANGED <<dealt, held, todo, quota, left, dat, ans, wpc, mine, work, table, round>>
MData == /\ mpc = "data" /\ Room(dat[target])
         /\ LET to == IF dealt + Packet < N THEN dealt + Packet ELSE N
            IN  /\ dat' = [dat EXCEPT ![target] = Append(@, dealt + 1 .. to)]
                /\ held' = [held EXCEPT ![target] = dealt + 1 .. to] /\ dealt' = to
         /\ mpc' = "loop" /\ target' = None /\ UNCHANGED <<todo, quota, left, cmd, ans, wpc, mine, work, table, round>>
\* nobody to serve: take any answer that is there
Take(v) == /\ ans[v] # <<>> /\ ans' = [ans EXCEPT ![v] = Tail(@)]
           /\ table' = [i \in 1 .. N |-> IF i \in held[v] THEN table[i] + (IF i \in Head(ans[v]) THEN 1 ELSE 100) ELSE table[i]]
           /\ held' = [held EXCEPT ![v] = {}] /\ quota' = [quota EXCEPT ![v] = @ - 1]
MTake == /\ mpc = "loop" /\ dealt < N /\ Eligible = {} /\ \E v \in Workers : Take(v)
         /\ UNCHANGED <<mpc, dealt, todo, left, target, cmd, dat, wpc, mine, work, round>>
MFree == /\ mpc = "loop" /\ dealt = N /\ mpc' = "free" /\ left' = Idle
         /\ UNCHANGED <<dealt, held, todo, quota, target, cmd, dat, ans, wpc, mine, work, table, round>>
MTell == /\ mpc \in {"free", "drain", "kill"} /\ \E v \in left : /\ Room(cmd[v]) /\ cmd' = [cmd EXCEPT ![v] = Append(@, IF mpc = "kill" THEN "kill" ELSE "finish")] /\ left' = left \ {v}
         /\ UNCHANGED <<mpc, dealt, held, todo, quota, target, dat, ans, wpc, mine, work, table, round>>
MDrain == /\ mpc = "free" /\ left = {} /\ mpc' = "drain" /\ UNCHANGED <<dealt, held, todo, quota, left, target, cmd, dat, ans, wpc, mine, work, table, round>>
MLast == /\ mpc = "drain" /\ left = {} /\ \E v \in Workers : Take(v) /\ left' = {v}
         /\ UNCHANGED <<mpc, dealt, todo, target, cmd, dat, wpc, mine, work, round>>
MOver == /\ mpc = "drain" /\ left = {} /\ Idle = Workers
         /\ mpc' = (IF Lasting THEN (IF round < Rounds THEN "new" ELSE "over") ELSE "left")
         /\ UNCHANGED <<dealt, held, todo, quota, left, target, cmd, dat, ans, wpc, mine, work, table, round>>
MKill == /\ mpc = "over" /\ mpc' = "kill" /\ left' = Workers /\ UNCHANGED <<dealt, held, todo, quota, target, cmd, dat, ans, wpc, mine, work, table, round>>
MLeave == /\ mpc = "kill" /\ left = {} /\ mpc' = "left" /\ UNCHANGED <<dealt, held, todo, quota, left, target, cmd, dat, ans, wpc, mine, work, table, round>>
\* workers
WOrder(v) == /\ wpc[v] = "order" /\ cmd[v] # <<>> /\ cmd' = [cmd EXCEPT ![v] = Tail(@)]
             /\ wpc' = [wpc EXCEPT ![v] = IF Head(cmd[v]) = "continue" THEN "data"
                                          ELSE IF Head(cmd[v]) = (IF Lasting THEN "kill" ELSE "finish") THEN "gone" ELSE "order"]
             /\ UNCHANGED <<mpc, dealt, held, todo, quota, left, target, dat, ans, mine, work, table, round>>
WData(v) == /\ wpc[v] = "data" /\ dat[v] # <<>> /\ dat' = [dat EXCEPT ![v] = Tail(@)]
            /\ mine' = [mine EXCEPT ![v] = Head(dat[v])] /\ work' = [work EXCEPT ![v] = Head(dat[v])]
            /\ wpc' = [wpc EXCEPT ![v] = "idle"]
            /\ UNCHANGED <<mpc, dealt, held, todo, quota, left, target, cmd, ans, table, round>>
First(S) == CHOOSE x \in S : \A y \in S : x <= y
WIn(v) == /\ wpc[v] = "idle" /\ work[v] # {} /\ First(work[v]) \in todo /\ todo' = todo \ {First(work[v])} /\ wpc' = [wpc EXCEPT ![v] = "inside"]
          /\ UNCHANGED <<mpc, dealt, held, quota, left, target, cmd, dat, ans, mine, work, table, round>>
WOut(v) == /\ wpc[v] = "inside" /\ work' = [work EXCEPT ![v] = @ \ {First(@)}] /\ wpc' = [wpc EXCEPT ![v] = "idle"]
           /\ UNCHANGED <<mpc, dealt, held, todo, quota, left, target, cmd, dat, ans, mine, table, round>>
WAnswer(v) == /\ wpc[v] = "idle" /\ work[v] = {} /\ Room(ans[v]) /\ ans' = [ans EXCEPT ![v] = Append(@, mine[v])]
              /\ wpc' = [wpc EXCEPT ![v] = "order"] /\ mine' = [mine EXCEPT ![v] = {}]
              /\ UNCHANGED <<mpc, dealt, held, todo, quota, left, target, cmd, dat, work, table, round>>
Master == MStart \/ MOrder \/ MData \/ MTake \/ MFree \/ MTell \/ MDrain \/ MLast \/ MOver \/ MKill \/ MLeave
Worker(v) == WOrder(v) \/ WData(v) \/ WIn(v) \/ WOut(v) \/ WAnswer(v)
Ended == mpc = "left" /\ (\A v \in Workers : wpc[v] = "gone")
Next == Master \/ (\E v \in Workers : Worker(v)) \/ (Ended /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Master) /\ \A v \in Workers : WF_vars(Worker(v))
----------------------------------------------------------------------------
\* it is a parallel apply
Quiet == mpc \in {"new", "over", "kill", "left"}
Promise == INSTANCE ParallelApply WITH n <- IF round = 0 THEN 0 ELSE N, w <- IF round = 0 THEN 1 ELSE Cardinality(Workers),
             busy <- {<<First(work[v]), v>> : v \in {u \in Workers : wpc[u] = "inside"}}, over <- Quiet
PNext == \/ Promise!Begin(N, Cardinality(Workers))
         \/ \E i \in 1 .. N, v \in Workers : Promise!Enter(i, v) \/ Promise!Leave(i, v)
         \/ Promise!Finish
PBegun == [][PNext]_(Promise!pvars)
\* every result is where it belongs, once
InPlace == Quiet /\ round > 0 => \A i \in 1 .. N : table[i] = 1
\* each worker holds what the master believes it holds
Known == \A v \in Workers : held[v] = {} => mine[v] = {} /\ dat[v] = <<>> /\ ans[v] = <<>>
NothingLeft == Ended => \A v \in Workers : cmd[v] = <<>> /\ dat[v] = <<>> /\ ans[v] = <<>>
Terminates == <>Ended
==========================================================================
