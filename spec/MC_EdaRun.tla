------------------------------ MODULE MC_EdaRun -----------------------------
(* All short runs: any selection, any replacement, any stop.                 *)
EXTENDS EdaRun
CONSTANTS N, Gens
VARIABLES gen, ids, born
all == <<vars, gen, ids, born>>
Pops(S) == UNION {[1..k -> S] : k \in 1..N}
Init == Idle /\ gen = 0 /\ ids = 0 /\ born = {}
Keep == UNCHANGED <<gen, ids, born>>
Next ==
  \/ ph = "idle" /\ (\E k \in 1..N : \E j \in BOOLEAN : Begin([i \in 1..k |-> <<-1, i>>], 0, j)) /\ Keep
  \/ First(pop, ids + 1) /\ ids' = ids + 1 /\ UNCHANGED <<gen, born>>
  \/ (\E s \in Pops(Range(pop)) : Choose(pop, s)) /\ Keep
  \/ Estimate(sel, ids + 1) /\ ids' = ids + 1 /\ gen' = gen + 1 /\ UNCHANGED born
  \/ (\E go \in BOOLEAN : Judge(dist, go)) /\ Keep
  \/ Draw(dist, <<dist, Len(off) + 1>>) /\ Keep
  \/ Evaluate(pop, off) /\ born' = Range(off) /\ UNCHANGED <<gen, ids>>
  \/ (\E out \in Pops(Range(pop) \cup Range(off)) : Replace(pop, off, out)) /\ Keep
  \/ (\E go \in BOOLEAN : (go => gen < Gens) /\ GoOn(pop, go)) /\ Keep
  \/ Finish(pop) /\ Keep
Spec == Init /\ [][Next]_all /\ WF_all(Next)
\* offspring come from the distribution estimated last
Current == ph \in {"sample", "replace", "continue"} => \A i \in DOMAIN off : off[i][1] = dist
\* what is selected comes from the population, and estimates from the selected
Fresh == ph = "estimate" => Range(sel) \subseteq Range(pop)
\* the first estimate, of the initial population, is never sampled
NotFirst == \A i \in DOMAIN pop : pop[i][1] # 1
Full == ph \in {"replace"} => Len(off) = Len(pop)
OnlyKnown == \A i \in DOMAIN pop : pop[i][1] = -1 \/ pop[i][1] <= ids
Ends == <>(ph = "done")
=============================================================================
