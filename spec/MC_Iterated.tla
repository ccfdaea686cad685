---------------------------- MODULE MC_Iterated -----------------------------
(* Variable neighbourhood search over abstract heuristics: heuristic i may   *)
(* send the current solution to any of a given set.                          *)
EXTENDS Iterated
CONSTANTS N, V, Steps, MaxH
VARIABLES a, kind, m, cycle, crit, s, cur, best, k, run, fresh, seen
vars == <<a, kind, m, cycle, crit, s, cur, best, k, run, fresh, seen>>
Init == /\ \E t \in [1..Pow2(N) -> 0..V], d \in {0, 1} : a = [n |-> N, tab |-> t, dir |-> d]
        /\ kind \in {"forward", "backward", "random"} /\ m \in 1..MaxH /\ cycle \in BOOLEAN /\ crit \in {"always", "better", "noworse"}
        /\ \E i \in SelStart(kind, m) : s = SelInit(i)
        /\ cur = 0 /\ best = 0 /\ k = 0 /\ run = TRUE /\ fresh = TRUE /\ seen = {s.path[1]}
Iterate == /\ run /\ k < Steps /\ k' = k + 1
           /\ \E y \in 0..(Pow2(N) - 1) :
              LET acc == Crit(crit, a, cur, y) IN
              /\ cur' = IF acc THEN y ELSE cur
              /\ best' = IF Better(Fit(a.tab, y), Fit(a.tab, best), a.dir) THEN y ELSE best
              /\ IF acc /\ ~fresh THEN \E i \in SelStart(kind, m) : s' = SelInit(i) /\ seen' = {i} /\ run' = TRUE
                 ELSE IF SelMore(s, m, cycle) THEN \E i \in SelNext(kind, m, s) : s' = SelGo(s, m, i) /\ seen' = seen \cup {i} /\ run' = TRUE
                 ELSE s' = s /\ run' = FALSE /\ UNCHANGED seen
              /\ fresh' = FALSE
           /\ UNCHANGED <<a, kind, m, cycle, crit>>
Next == Iterate
Spec == Init /\ [][Next]_vars
\* a search that ended by itself has tried every heuristic since its last restart
AllTried == ~run => seen = 0..(m - 1)
NoRepeat == Len(s.path) <= m /\ NoDup(s.path) /\ s.pos \in 1..Len(s.path)
BestKept == ~Better(Fit(a.tab, cur), Fit(a.tab, best), a.dir)
NeverWorse == [][(crit # "always") => ~Better(Fit(a.tab, cur), Fit(a.tab, cur'), a.dir)]_vars
=============================================================================
