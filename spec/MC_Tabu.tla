------------------------------ MODULE MC_Tabu -------------------------------
EXTENDS Tabu
CONSTANTS N, V, Steps
VARIABLES a, d, tl, cur, best, visited, k, last
vars == <<a, d, tl, cur, best, visited, k, last>>
Lists == {[kind |-> "sol", size |-> s, lo |-> t, hi |-> t] : s \in 1..2, t \in 0..2}
    \cup {[kind |-> "nbr", size |-> s, lo |-> t, hi |-> t] : s \in 1..2, t \in 0..2}
    \cup {[kind |-> "index", size |-> s, lo |-> t, hi |-> t + 1] : s \in 1..N, t \in 0..2}
Init == /\ \E t \in [1..Pow2(N) -> 0..V], m \in {0, 1} : a = [n |-> N, tab |-> t, dir |-> m]
        /\ d \in Lists /\ tl = TabuInit(d) /\ cur = 0 /\ best = Fit(a.tab, 0) /\ visited = {0} /\ k = 0 /\ last = -1
Step == /\ k < Steps /\ k' = k + 1
        /\ cur' \in TabuSucc(a, d, tl, cur, <<best>>, Moves(N))
        /\ IF cur' = cur THEN tl' = Elapse(d, tl) /\ UNCHANGED <<best, visited, last>>
           ELSE /\ last' = MoveTo(cur, cur', N)
                /\ \E r \in Record(d, tl, cur', last') : tl' = Elapse(d, r)
                /\ best' = IF Better(Fit(a.tab, cur'), best, a.dir) THEN Fit(a.tab, cur') ELSE best
                /\ visited' = visited \cup {cur'}
        /\ UNCHANGED <<a, d>>
Next == Step
Spec == Init /\ [][Next]_vars
\* the best kept is the best ever visited
BestKept == \A x \in visited : ~Better(Fit(a.tab, x), best, a.dir)
BestSeen == \E x \in visited : Fit(a.tab, x) = best
\* a forbidden move is only taken when it beats everything visited
NoTabu == [][cur' # cur => LET i == MoveTo(cur, cur', N) IN
             Forbidden(d, tl, cur, i) => \A x \in visited : Better(Fit(a.tab, cur'), Fit(a.tab, x), a.dir)]_vars
\* entries do not outlive their tenure
Bounded == IF d.kind = "index" THEN \A i \in DOMAIN tl : tl[i] <= d.hi
           ELSE Len(tl) <= d.size /\ \A i \in DOMAIN tl : tl[i].left <= d.lo
\* an unexpired list of visited solutions keeps the search from turning back
NoReturn == [][(d.kind = "sol" /\ d.lo = 0 /\ cur' # cur /\ \E e \in DOMAIN tl : tl[e].what = cur') => Better(Fit(a.tab, cur'), best, a.dir)]_vars
=============================================================================
