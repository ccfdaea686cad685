------------------------------- MODULE EdaRun --------------------------------
(* One run of an estimation-of-distribution algorithm.  Distributions are    *)
(* numbers; an individual is a sequence whose first element is the number of  *)
(* the distribution it was drawn from (-1: part of the first population).     *)
(* Each generation selects from the population, estimates a distribution from *)
(* what was selected, draws as many individuals as the population holds,      *)
(* evaluates them and lets the replacement form the next population.          *)
EXTENDS Common
VARIABLES ph, pop, sel, off, dist, judged
vars == <<ph, pop, sel, off, dist, judged>>
Idle == ph = "idle" /\ pop = <<>> /\ sel = <<>> /\ off = <<>> /\ dist = 0 /\ judged = FALSE
\* d: the distribution the caller gave
Begin(p, d, j) == ph \in {"idle", "done"} /\ ph' = "first" /\ pop' = p /\ sel' = <<>> /\ off' = <<>> /\ dist' = d /\ judged' = j
First(p, id) == ph = "first" /\ p = pop /\ dist' = id /\ ph' = "select" /\ UNCHANGED <<pop, sel, off, judged>>
Choose(p, s) == ph = "select" /\ p = pop /\ s # <<>> /\ sel' = s /\ ph' = "estimate" /\ UNCHANGED <<pop, off, dist, judged>>
Estimate(s, id) == ph = "estimate" /\ s = sel /\ dist' = id /\ off' = <<>> /\ ph' = (IF judged THEN "judge" ELSE "sample") /\ UNCHANGED <<pop, sel, judged>>
Judge(id, go) == ph = "judge" /\ id = dist /\ ph' = (IF go THEN "sample" ELSE "over") /\ UNCHANGED <<pop, sel, off, dist, judged>>
Draw(id, x) == ph = "sample" /\ id = dist /\ Len(off) < Len(pop) /\ off' = Append(off, x) /\ UNCHANGED <<ph, pop, sel, dist, judged>>
Evaluate(p, o) == ph = "sample" /\ p = pop /\ Len(off) = Len(pop) /\ o = off /\ ph' = "replace" /\ UNCHANGED <<pop, sel, off, dist, judged>>
Replace(p, o, out) == ph = "replace" /\ p = pop /\ o = off /\ out # <<>> /\ pop' = out /\ ph' = "continue" /\ UNCHANGED <<sel, off, dist, judged>>
GoOn(p, go) == ph = "continue" /\ p = pop /\ ph' = (IF go THEN "select" ELSE "over") /\ UNCHANGED <<pop, sel, off, dist, judged>>
Finish(p) == ph = "over" /\ p = pop /\ ph' = "done" /\ UNCHANGED <<pop, sel, off, dist, judged>>
=============================================================================
