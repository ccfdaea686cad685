--------------------------- MODULE MC_Evaluation ----------------------------
(* A population whose members are changed (which invalidates them) and       *)
(* evaluated through a wrapper, until the wrapper stops the run.             *)
EXTENDS Evaluation
CONSTANTS N, V, Lim, T
VARIABLES w, s, pop, seen, dirty, stop, now, dir, k
vars == <<w, s, pop, seen, dirty, stop, now, dir, k>>
Obj(x) == IF x = 3 THEN Nan ELSE (x * x) % 3
Init == /\ w \in [kind : {"count", "budget", "time", "nan", "keep"}, max : 0..Lim] /\ dir \in {0, 1}
        /\ \E xs \in [1..N -> 0..V] : pop = [i \in 1..N |-> <<xs[i], Inv>>]
        /\ s = EInit(0) /\ seen = <<>> /\ dirty = N /\ stop = FALSE /\ now = 0 /\ k = 0
Change(i) == /\ ~stop /\ \E x \in (0..V) \ {pop[i][1]} : pop' = [pop EXCEPT ![i] = <<x, Inv>>]
             /\ dirty' = dirty + (IF pop[i][2] = Inv THEN 0 ELSE 1) /\ UNCHANGED <<w, s, seen, stop, now, dir>>
Eval(i) == /\ ~stop
           /\ LET x == pop[i] y == Obj(x[1]) z == After(w, s, x, y, now) IN
              /\ pop' = [pop EXCEPT ![i] = z]
              /\ seen' = (IF Through(w, s, x, now) THEN Append(seen, z) ELSE seen)
              /\ s' = [s EXCEPT !.calls = Calls(w, s, x, now), !.best = (IF w.kind = "keep" /\ NewBest(s, z, dir) THEN z ELSE s.best)]
              /\ stop' = Throws(w, s, x, y, now)
           /\ UNCHANGED <<w, dirty, now, dir>>
Tick == ~stop /\ now' = now + 1 /\ UNCHANGED <<w, s, pop, seen, dirty, stop, dir>>
Next == k < T /\ k' = k + 1 /\ (Tick \/ \E i \in 1..N : Change(i) \/ Eval(i))
Spec == Init /\ [][Next]_vars
\* the counter is the number of objective calls
CallsExact == s.calls = Len(seen)
\* at most one call per change
NoWaste == w.kind # "keep" => s.calls <= dirty
\* a valid individual carries the objective of its own content
Consistent == \A i \in 1..N : pop[i][2] # Inv => pop[i][2] = Obj(pop[i][1])
BudgetExact == w.kind = "budget" => (s.calls <= MaxOf(w.max, 1) /\ (stop <=> s.calls > 0 /\ s.calls >= w.max))
NoCallLate == (w.kind = "time" /\ w.max = 0) => s.calls = 0
KeepBest == (w.kind = "keep" /\ seen # <<>>) => (s.best[2] = Ranked(seen, dir)[1] /\ s.best \in ToSet(seen))
=============================================================================
