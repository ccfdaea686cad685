--------------------------- MODULE T_LocalSearch ----------------------------
EXTENDS LocalSearch, TraceBase
VARIABLES c, cur, k, go, on, cs
vars == <<c, cur, k, go, on, cs>>
TNew == IsOp("new") /\ c' = E /\ cur' = -1 /\ k' = 0 /\ go' = FALSE /\ on' = FALSE /\ cs' = <<>>
TStart == IsOp("start") /\ ~(go /\ on) /\ cur' = E.x /\ k' = 0 /\ go' = TRUE /\ on' = TRUE /\ UNCHANGED <<c, cs>>
\* the search begins with the given solution, correctly evaluated
TBegin == /\ IsOp("begin") /\ k = 0 /\ E.x = cur /\ E.f = Fit(c.tab, cur)
          /\ cs' = (IF c.kind = "sa" THEN CoolInit(c.c) ELSE <<>>)
          /\ (c.kind = "sa" => E.t = c.c.init)
          /\ UNCHANGED <<c, cur, k, go, on>>
M == IF c.full THEN Moves(c.n) ELSE {E.seen[i] : i \in DOMAIN E.seen}
TIt == /\ IsOp("it") /\ go /\ on /\ c.kind \notin {"sa", "mh"}
       /\ TRUE = (E.x \in Succ(c, c.kind, c.rule, cur, IF c.kind = "rwalk" THEN Moves(c.n) ELSE M))
       /\ ((c.kind = "first" /\ c.nb = "order") => E.x = FirstInOrder(c, c.rule, cur))
       /\ E.f = Fit(c.tab, E.x)
       /\ cur' = E.x /\ k' = k + 1 /\ go' = E.go
       /\ on' = GoesOn(c.kind, Took(c, c.kind, c.rule, cur, M), k + 1, c.limit, c.always)
       /\ UNCHANGED <<c, cs>>
\* annealing: the neighbour tried is the last one evaluated
Tried == Flip(cur, E.seen[Len(E.seen)])
TSa == /\ IsOp("it") /\ go /\ on /\ c.kind = "sa"
       /\ E.seen # <<>>
       /\ TRUE = (E.x \in AnnealNext(cur, Tried, Loss(c, cur, Tried), cs.t))
       /\ E.f = Fit(c.tab, E.x)
       /\ cur' = E.x /\ k' = k + 1 /\ go' = E.go
       /\ cs' = CoolStep(c.c, cs, E.x # cur) /\ E.t = cs'.t
       /\ on' = CoolGoesOn(c.c, cs')
       /\ UNCHANGED c
TMh == /\ IsOp("it") /\ go /\ on /\ c.kind = "mh" /\ E.seen # <<>>
       /\ TRUE = (E.x \in RatioNext(c, cur, Tried)) /\ E.f = Fit(c.tab, E.x)
       /\ cur' = E.x /\ k' = k + 1 /\ go' = E.go /\ on' = (k + 1 < c.limit)
       /\ UNCHANGED <<c, cs>>
\* it ends only when stopped or at its own end, with the current solution
TEnd == /\ IsOp("end") /\ ~(go /\ on) /\ k > 0 /\ E.x = cur /\ E.f = Fit(c.tab, cur)
        /\ ((c.kind \in Climbers /\ c.full /\ ~on /\ c.rule = "strict") => LocalOpt(c.tab, cur, c.n, c.dir))
        /\ UNCHANGED vars
TCover == /\ IsOp("cover") /\ UNCHANGED vars
          /\ LET S == Succ(c, c.kind, "strict", E.x, Moves(c.n)) IN {E.got[i] : i \in DOMAIN E.got} = S \ {E.x}
\* cooling schedules on their own
TSched == IsOp("sched") /\ c' = E /\ cs' = <<>> /\ UNCHANGED <<cur, k, go, on>>
TCInit == IsOp("cinit") /\ cs' = CoolInit(c.c) /\ E.t = cs'.t /\ UNCHANGED <<c, cur, k, go, on>>
TCool == IsOp("cool") /\ cs' = CoolStep(c.c, cs, E.acc) /\ E.t = cs'.t /\ E.go = CoolGoesOn(c.c, cs') /\ UNCHANGED <<c, cur, k, go, on>>
\* acceptance frequencies: 10000 exp(-h/2), ratios v/u; margins above 6 sigma
ExpHalf == <<6065, 3679, 2231, 1353, 821, 498, 302, 183>>
TRate == /\ IsOp("rate") /\ UNCHANGED vars
         /\ LET p == IF E.kind = "sarate" THEN ExpHalf[E.halves] ELSE (10000 * E.halves) \div E.of
                got == (10000 * (E.acc \div 2)) \div (E.n \div 2)
            IN Abs(got - p) <= 420
TraceInit == l = 1 /\ c = <<>> /\ cur = -1 /\ k = 0 /\ go = FALSE /\ on = FALSE /\ cs = <<>>
TraceNext == TNew \/ TStart \/ TBegin \/ TIt \/ TSa \/ TMh \/ TEnd \/ TCover \/ TSched \/ TCInit \/ TCool \/ TRate
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
