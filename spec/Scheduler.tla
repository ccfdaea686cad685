---------------------------- MODULE Scheduler ----------------------------
(* The two ways the shared-memory scheduler distributes a population over   *)
(* its workers, with every interleaving of the master and the workers.      *)
(*   linear:      the population is cut in W packages of equal size, the    *)
(*                remainder going one by one to the first packages; one     *)
(*                thread per non-empty package; the master joins them all.  *)
(*   progressive: packages of growing size are handed to workers found      *)
(*                without work, under the worker's lock; the master raises  *)
(*                `closed' when everything has been handed over.            *)
(* A worker leaves only when the hand-over is closed and its package empty. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, P, Policy, Rounds
Workers == 1 .. W
VARIABLES mpc, mw, counter, pk, lock, closed, plan, wpc, wix, calls, inside, size, round
vars == <<mpc, mw, counter, pk, lock, closed, plan, wpc, wix, calls, inside, size, round>>
\* abstract view
n == size
w == W
busy == {<<inside[t], t>> : t \in {u \in Workers : inside[u] # 0}}
todo == {i \in 1 .. size : calls[i] = 0}
over == mpc = "idle"
PA == INSTANCE ParallelApply

Share(k, t) == LET q == k \div W r == k % W base == [i \in 1 .. q |-> (t - 1) * q + i]
               IN IF t <= r THEN Append(base, W * q + t) ELSE base

Init == /\ mpc = "idle" /\ mw = 1 /\ counter = 0 /\ pk = [t \in Workers |-> <<>>] /\ lock = [t \in Workers |-> "free"]
        /\ closed = FALSE /\ plan = [t \in Workers |-> 1] /\ wpc = [t \in Workers |-> "off"] /\ wix = [t \in Workers |-> 1]
        /\ calls = <<>> /\ inside = [t \in Workers |-> 0] /\ size = 0 /\ round = 0

Start == /\ mpc = "idle" /\ round < Rounds /\ round' = round + 1
         /\ \E k \in 0 .. P : size' = k /\ calls' = [i \in 1 .. k |-> 0]
         /\ counter' = 0 /\ closed' = FALSE /\ mw' = 1
         /\ plan' = [t \in Workers |-> 1]
         /\ (IF Policy = "linear"
             THEN pk' = [t \in Workers |-> Share(size', t)] /\ mpc' = "join"
                  /\ wpc' = [t \in Workers |-> IF Share(size', t) = <<>> THEN "off" ELSE "run"]
             ELSE pk' = pk /\ mpc' = "scan" /\ wpc' = [t \in Workers |-> "test"])
         /\ wix' = [t \in Workers |-> 1]
         /\ UNCHANGED <<lock, inside>>

\* ---- progressive master
NextW == IF mw = W THEN 1 ELSE mw + 1
Scan == /\ mpc = "scan"
        /\ (IF counter >= size THEN mpc' = "close" /\ mw' = mw
            ELSE IF pk[mw] = <<>> THEN mpc' = "take" /\ mw' = mw
            ELSE mpc' = "scan" /\ mw' = NextW)
        /\ UNCHANGED <<counter, pk, lock, closed, plan, wpc, wix, calls, inside, size, round>>
Take == /\ mpc = "take" /\ lock[mw] = "free" /\ lock' = [lock EXCEPT ![mw] = "master"] /\ mpc' = "give"
        /\ UNCHANGED <<mw, counter, pk, closed, plan, wpc, wix, calls, inside, size, round>>
Give == /\ mpc = "give"
        /\ LET k == IF plan[mw] < size - counter THEN plan[mw] ELSE size - counter
           IN pk' = [pk EXCEPT ![mw] = @ \o [i \in 1 .. k |-> counter + i]] /\ counter' = counter + k
        /\ plan' = [plan EXCEPT ![mw] = @ * 2]
        /\ lock' = [lock EXCEPT ![mw] = "free"] /\ mw' = NextW /\ mpc' = "scan"
        /\ UNCHANGED <<closed, wpc, wix, calls, inside, size, round>>
Close == mpc = "close" /\ closed' = TRUE /\ mpc' = "join" /\ UNCHANGED <<mw, counter, pk, lock, plan, wpc, wix, calls, inside, size, round>>
Join == /\ mpc = "join" /\ \A t \in Workers : wpc[t] = "off"
        /\ mpc' = "idle" /\ pk' = [t \in Workers |-> <<>>]
        /\ UNCHANGED <<mw, counter, lock, closed, plan, wpc, wix, calls, inside, size, round>>

\* ---- workers
Test(t) == /\ wpc[t] = "test"
           /\ wpc' = [wpc EXCEPT ![t] = IF closed /\ pk[t] = <<>> THEN "off" ELSE "lock"]
           /\ UNCHANGED <<mpc, mw, counter, pk, lock, closed, plan, wix, calls, inside, size, round>>
Lock(t) == /\ wpc[t] = "lock" /\ lock[t] = "free" /\ lock' = [lock EXCEPT ![t] = "worker"]
           /\ wpc' = [wpc EXCEPT ![t] = "run"] /\ wix' = [wix EXCEPT ![t] = 1]
           /\ UNCHANGED <<mpc, mw, counter, pk, closed, plan, calls, inside, size, round>>
Enter(t) == /\ wpc[t] = "run" /\ wix[t] <= Len(pk[t])
            /\ inside' = [inside EXCEPT ![t] = pk[t][wix[t]]] /\ calls' = [calls EXCEPT ![pk[t][wix[t]]] = @ + 1]
            /\ wpc' = [wpc EXCEPT ![t] = "in"]
            /\ UNCHANGED <<mpc, mw, counter, pk, lock, closed, plan, wix, size, round>>
Leave(t) == /\ wpc[t] = "in" /\ inside' = [inside EXCEPT ![t] = 0] /\ wix' = [wix EXCEPT ![t] = @ + 1]
            /\ wpc' = [wpc EXCEPT ![t] = "run"]
            /\ UNCHANGED <<mpc, mw, counter, pk, lock, closed, plan, calls, size, round>>
Drop(t) == /\ wpc[t] = "run" /\ wix[t] > Len(pk[t])
           /\ (IF Policy = "linear"
               THEN wpc' = [wpc EXCEPT ![t] = "off"] /\ UNCHANGED <<pk, lock>>
               ELSE wpc' = [wpc EXCEPT ![t] = "test"] /\ pk' = [pk EXCEPT ![t] = <<>>] /\ lock' = [lock EXCEPT ![t] = "free"])
           /\ UNCHANGED <<mpc, mw, counter, closed, plan, wix, calls, inside, size, round>>

Master == Start \/ Scan \/ Take \/ Give \/ Close \/ Join
Worker(t) == Test(t) \/ Lock(t) \/ Enter(t) \/ Leave(t) \/ Drop(t)
Next == Master \/ \E t \in Workers : Worker(t)
\* the operating system lets everybody advance, and a lock often enough free is eventually obtained
Fair == /\ WF_vars(Scan \/ Give \/ Close \/ Join) /\ SF_vars(Take)
        /\ \A t \in Workers : WF_vars(Test(t) \/ Enter(t) \/ Leave(t) \/ Drop(t)) /\ SF_vars(Lock(t))
Spec == Init /\ [][Next]_vars /\ Fair

OnceAtMost == \A i \in 1 .. size : calls[i] <= 1
AllWhenOver == over => (\A i \in 1 .. size : calls[i] = 1) /\ busy = {}
\* every step is a step of the promise
Refines == [][\/ UNCHANGED <<n, todo, busy, over>>
              \/ \E k \in 0 .. P : PA!Begin(k, W)
              \/ \E i \in 1 .. P, t \in Workers : PA!Enter(i, t) \/ PA!Leave(i, t)
              \/ PA!Finish]_vars
Returns == [](mpc # "idle" => <>(mpc = "idle"))
==========================================================================
