--------------------------- MODULE MC_LocalSearch ---------------------------
EXTENDS LocalSearch
CONSTANTS N, V, Limit
VARIABLES a, kind, cur, k, run, took, cs, c
vars == <<a, kind, cur, k, run, took, cs, c>>
Schedules == {[kind |-> "simple", init |-> 4 * TS, num |-> 1, den |-> 4, span |-> s, final |-> TS] : s \in 0..2}
        \cup {[kind |-> "dyn", init |-> 4 * TS, num |-> 1, den |-> 4, span |-> s, maxmoves |-> m, maxidle |-> 1] : s \in 1..2, m \in 1..2}
NoSched == [kind |-> "none"]
Init == /\ \E t \in [1..Pow2(N) -> 0..V], d \in {0, 1} : a = [n |-> N, tab |-> t, dir |-> d]
        /\ kind \in Climbers \cup {"neutral", "rneutral", "rwalk", "sa", "mh"}
        /\ cur \in 0..(Pow2(N) - 1) /\ k = 0 /\ run = TRUE /\ took = FALSE
        /\ IF kind = "sa" THEN c \in Schedules /\ cs = CoolInit(c) ELSE c = NoSched /\ cs = <<>>
Walk == /\ kind \notin {"sa", "mh"} /\ run /\ k < Limit
        /\ cur' \in Succ(a, kind, "strict", cur, Moves(N))
        /\ took' = Took(a, kind, "strict", cur, Moves(N)) /\ k' = k + 1
        /\ run' = GoesOn(kind, took', k', Limit, FALSE)
        /\ UNCHANGED <<a, kind, cs, c>>
Anneal == /\ kind = "sa" /\ run /\ k < 2 * Limit
          /\ \E y \in Around(cur, Moves(N)) : cur' \in AnnealNext(cur, y, Loss(a, cur, y), cs.t)
          /\ took' = (cur' # cur) /\ k' = k + 1
          /\ cs' = CoolStep(c, cs, took') /\ run' = CoolGoesOn(c, cs')
          /\ UNCHANGED <<a, kind, c>>
Ratio == /\ kind = "mh" /\ run /\ k < Limit
         /\ \E y \in Around(cur, Moves(N)) : cur' \in RatioNext(a, cur, y)
         /\ took' = (cur' # cur) /\ k' = k + 1 /\ run' = GoesOn(kind, took', k', Limit, FALSE)
         /\ UNCHANGED <<a, kind, cs, c>>
Next == Walk \/ Anneal \/ Ratio
Spec == Init /\ [][Next]_vars
\* a climber that stopped by itself is in a local optimum
Optimum == (kind \in Climbers /\ ~run) => LocalOpt(a.tab, cur, N, a.dir)
\* strict climbers cannot run longer than there are fitness levels
Climbing == (kind \in Climbers) => k <= V + 1
Monotone == [][(kind \in Climbers /\ took') => Better(Fit(a.tab, cur'), Fit(a.tab, cur), a.dir)]_vars
NoLoss == [][kind = "neutral" => ~Better(Fit(a.tab, cur), Fit(a.tab, cur'), a.dir)]_vars
Plateau == [][kind = "rneutral" => Fit(a.tab, cur) = Fit(a.tab, cur')]_vars
\* temperature never rises, changes only at the end of a span
Cools == [][kind = "sa" => (cs'.t <= cs.t /\ (cs'.t # cs.t => cs'.tries = 0))]_vars
Spans == kind = "sa" => cs.tries <= c.span
=============================================================================
