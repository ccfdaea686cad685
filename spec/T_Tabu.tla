------------------------------- MODULE T_Tabu -------------------------------
EXTENDS Tabu, TraceBase
VARIABLES c, cur, tl, best, top, go
vars == <<c, cur, tl, best, top, go>>
\* best = <<fitness>>: the best the aspiration knows; top = best of the solutions moved to
TNew == IsOp("new") /\ c' = E /\ cur' = -1 /\ tl' = <<>> /\ best' = <<>> /\ top' = <<>> /\ go' = FALSE
TStart == IsOp("start") /\ ~go /\ cur' = E.x /\ go' = TRUE /\ UNCHANGED <<c, tl, best, top>>
TBegin == /\ IsOp("begin") /\ go /\ E.x = cur /\ E.f = Fit(c.tab, cur)
          /\ tl' = TabuInit(c.d) /\ best' = <<Fit(c.tab, cur)>> /\ top' = <<Fit(c.tab, cur), {cur}>>
          /\ E.best = Fit(c.tab, cur)
          /\ UNCHANGED <<c, cur, go>>
\* the diversification changed the current solution before the exploration
TDiv == IsOp("div") /\ go /\ cur' = E.x /\ UNCHANGED <<c, tl, best, top, go>>
M == IF c.full THEN Moves(c.n) ELSE {E.seen[i] : i \in DOMAIN E.seen}
Up(b, f) == IF Better(f, b[1], c.dir) THEN <<f>> ELSE b
TIt == /\ IsOp("it") /\ go
       /\ LET O == Open(c, c.d, tl, cur, best, M) IN
          /\ TRUE = (E.x \in TabuSucc(c, c.d, tl, cur, best, M))
          /\ E.f = Fit(c.tab, E.x)
          /\ cur' = E.x
          /\ IF O = {} THEN tl' = Elapse(c.d, tl) /\ UNCHANGED top
             ELSE /\ tl' \in {Elapse(c.d, r) : r \in Record(c.d, tl, E.x, MoveTo(cur, E.x, c.n))}
                  /\ top' = (IF Better(E.f, top[1], c.dir) THEN <<E.f, {E.x}>> ELSE IF E.f = top[1] THEN <<E.f, top[2] \cup {E.x}>> ELSE top)
          /\ best' = Up(best, E.f)
          /\ E.best = top'[1]
          /\ go' = E.go /\ UNCHANGED c
TEnd == IsOp("end") /\ ~go /\ TRUE = (E.x \in top[2]) /\ E.f = top[1] /\ UNCHANGED vars
\* lists on their own: ban = the moves the list forbids from x now
TList == IsOp("list") /\ c' = [d |-> E.d, n |-> E.n] /\ tl' = <<>> /\ UNCHANGED <<cur, best, top, go>>
Bans(x, t) == {i \in Moves(c.n) : Forbidden(c.d, t, x, i)} = {E.ban[j] : j \in DOMAIN E.ban}
TLInit == IsOp("linit") /\ tl' = TabuInit(c.d) /\ cur' = E.x /\ TRUE = (Bans(E.x, tl')) /\ UNCHANGED <<c, best, top, go>>
TLAdd == IsOp("ladd") /\ cur' = E.x /\ tl' \in {t \in Record(c.d, tl, E.x, E.m) : Bans(E.x, t)} /\ UNCHANGED <<c, best, top, go>>
TLUpd == IsOp("lupd") /\ tl' = Elapse(c.d, tl) /\ TRUE = (Bans(cur, tl')) /\ UNCHANGED <<c, cur, best, top, go>>
TMoved == IsOp("moved") /\ E.f = E.v /\ UNCHANGED vars
TraceInit == l = 1 /\ c = <<>> /\ cur = -1 /\ tl = <<>> /\ best = <<>> /\ top = <<>> /\ go = FALSE
TraceNext == TNew \/ TStart \/ TBegin \/ TDiv \/ TIt \/ TEnd \/ TList \/ TLInit \/ TLAdd \/ TLUpd \/ TMoved
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
