----------------------------- MODULE MC_Control -----------------------------
(* A search with two stopping criteria over arbitrary histories of fitness   *)
(* and evaluation counts, run twice with the same criteria.                  *)
EXTENDS Control
CONSTANTS Steps, Mx
VARIABLES ks, ss, w, k, run, lastrun
vars == <<ks, ss, w, k, run, lastrun>>
Kinds == {[k |-> q, max |-> m, restart |-> b] : q \in {"iter", "fit", "full", "evals", "noimpr"}, m \in 0..Mx, b \in BOOLEAN}
Init == /\ \E a, b \in Kinds : ks = <<a, b>>
        /\ \E d \in {0, 1} : w = [f |-> 1, full |-> 1, nb |-> 0, val |-> 0, best |-> 1, dir |-> d]
        /\ ss = AllInit(ks, w) /\ k = 0 /\ run = TRUE /\ lastrun = 0
Step == /\ run /\ k < Steps
        /\ \E f \in 0..2, df, dn \in 0..1 :
           LET w2 == [w EXCEPT !.f = f, !.full = @ + df, !.nb = @ + dn]
               s2 == AllStep(ks, ss, w2) IN
           /\ ss' = s2 /\ run' = AllGo(ks, s2, w2)
           /\ w' = [w2 EXCEPT !.best = IF Better(f, w.best, w.dir) THEN f ELSE w.best]
        /\ k' = k + 1 /\ UNCHANGED <<ks, lastrun>>
Again == ~run /\ lastrun = 0 /\ lastrun' = k /\ k' = 0 /\ run' = TRUE /\ ss' = AllInit(ks, w) /\ UNCHANGED <<ks, w>>
Next == Step \/ Again
Spec == Init /\ [][Next]_vars
\* an iteration criterion never allows more than its count (one iteration is always made)
Bounded == \A i \in 1..2 : ks[i].k = "iter" => k <= (IF ks[i].max < 1 THEN 1 ELSE ks[i].max)
\* and alone allows exactly that
Exact == (~run /\ ks[1].k = "iter" /\ ks[2].k = "iter") => k = MaxOf(1, MinOf(ks[1].max, ks[2].max))
NoImprLong == \A i \in 1..2 : ks[i].k = "noimpr" => ss[i].cpt <= k
\* a restarting evaluation budget is per run
Budget == \A i \in 1..2 : (ks[i].k = "full" /\ run /\ k > 0) => w.full - ss[i].start < ks[i].max
=============================================================================
