----------------------------- MODULE T_Iterated -----------------------------
EXTENDS Iterated, TraceBase
VARIABLES c, cur, cand, pc, go, k, s, best, cnt, ops, acc, on
vars == <<c, cur, cand, pc, go, k, s, best, cnt, ops, acc, on>>
\* pc: idle -> ready -> (perturbed) -> improved -> judged -> ready ...
TNew == IsOp("new") /\ c' = E /\ cur' = -1 /\ cand' = -1 /\ pc' = "idle" /\ go' = FALSE /\ k' = 0 /\ s' = <<>> /\ best' = {} /\ cnt' = 0 /\ ops' = 0 /\ acc' = FALSE /\ on' = FALSE
TStart == IsOp("start") /\ pc = "idle" /\ cur' = E.x /\ cand' = -1 /\ go' = TRUE /\ on' = TRUE /\ k' = 0 /\ s' = <<>> /\ best' = {E.x} /\ cnt' = 0 /\ ops' = 0 /\ pc' = "start" /\ acc' = FALSE /\ UNCHANGED c
TBegin == IsOp("begin") /\ pc = "start" /\ E.x = cur /\ E.f = Fit(c.tab, cur) /\ pc' = "ready" /\ UNCHANGED <<c, cur, cand, go, k, s, best, cnt, ops, acc, on>>
First == k = 0
\* ---- perturbation of a copy of the current solution (not in the first iteration)
TPBeg == IsOp("pbeg") /\ pc = "ready" /\ c.kind = "ils" /\ ~First /\ E.x = cur /\ cand' = cur /\ ops' = 0 /\ pc' = "pert" /\ UNCHANGED <<c, cur, go, k, s, best, cnt, acc, on>>
\* an application of the perturbation's operator
TOp == /\ IsOp("shake") /\ c.kind = "ils"
       /\ (IF c.logged THEN pc = "pert" /\ E.b = cand /\ UNCHANGED pc ELSE pc = "ready" /\ ~First /\ E.b = cur /\ pc' = "pert")
       /\ cand' = E.a /\ ops' = (IF c.logged THEN ops + 1 ELSE 1) /\ UNCHANGED <<c, cur, go, k, s, best, cnt, acc, on>>
TPInit == IsOp("init") /\ pc = "pert" /\ c.kind = "ils" /\ c.pert = "restart" /\ cnt >= c.th /\ cand' = E.x /\ cnt' = 0 /\ ops' = 1 /\ UNCHANGED <<c, cur, pc, go, k, s, best, acc, on>>
TPEnd == /\ IsOp("pend") /\ pc = "pert" /\ c.kind = "ils"
         /\ E.f = Fit(c.tab, E.x)
         /\ CASE c.pert \in {"fixed", "range"} -> E.x = cand /\ ops \in c.lo..c.hi
              [] c.pert = "restart" -> E.x = cand /\ ((ops = 1) \/ cnt < c.th)
              [] OTHER -> TRUE = (IsNeighbour(cand, E.x, c.n))
         /\ cand' = E.x /\ UNCHANGED <<c, cur, pc, go, k, s, best, cnt, ops, acc, on>>
\* ---- improvement
Here == s.path[s.pos]
TShake == /\ IsOp("shake") /\ c.kind = "vns" /\ pc = "ready" /\ E.b = cur
          /\ (IF k = 0 /\ s = <<>> THEN E.id \in SelStart(c.sel, c.m) /\ s' = SelInit(E.id)
             ELSE IF s = <<>> THEN E.id \in SelStart(c.sel, c.m) /\ s' = SelInit(E.id)
             ELSE E.id = Here /\ s' = s)
          /\ cand' = E.a /\ pc' = "pert" /\ UNCHANGED <<c, cur, go, k, best, cnt, ops, acc, on>>
TLs == /\ IsOp("ls")
       /\ CASE c.kind = "ils" -> (IF First THEN pc = "ready" /\ E.b = cur ELSE IF c.logged THEN pc = "pert" /\ E.b = cand ELSE pc = "pert" /\ E.b = cand /\ ops = 1)
            [] c.kind = "vns" -> pc = "pert" /\ E.b = cand /\ E.id = Here
            [] OTHER -> TRUE
       /\ E.f = Fit(c.tab, E.a) /\ ~Better(Fit(c.tab, E.b), E.f, c.dir) /\ LocalOpt(c.tab, E.a, c.n, c.dir)
       /\ cand' = E.a /\ pc' = "improved" /\ UNCHANGED <<c, cur, go, k, s, best, cnt, ops, acc, on>>
\* ---- acceptance between the old and the new solution
TCrit == /\ IsOp("crit") /\ pc = "improved" /\ E.a = cur /\ E.b = cand /\ E.fa = Fit(c.tab, cur) /\ E.fb = Fit(c.tab, cand)
         /\ E.res = Crit(c.crit, c, cur, cand)
         /\ acc' = E.res /\ pc' = "judged" /\ UNCHANGED <<c, cur, cand, go, k, s, best, cnt, ops, on>>
TIt == /\ IsOp("it") /\ go /\ on
       /\ (pc = "judged" \/ (pc = "improved" /\ c.kind = "ils" /\ ~c.logged))
       /\ LET ok == Crit(c.crit, c, cur, cand) IN
          /\ E.x = (IF ok THEN cand ELSE cur) /\ E.f = Fit(c.tab, E.x)
          /\ cur' = E.x /\ cnt' = CountStep(cnt, ok)
          /\ k' = k + 1
          /\ go' = E.go
          /\ ((c.kind = "ils" /\ c.iters > 0) => E.go = (k + 1 < c.iters))
          /\ IF c.kind = "vns"
             THEN /\ best' = best \cup {cand}
                  /\ IF ok /\ ~First THEN s' = <<>> /\ on' = TRUE
                     ELSE IF SelMore(s, c.m, c.cycle) THEN on' = TRUE /\ s' \in {SelGo(s, c.m, i) : i \in SelNext(c.sel, c.m, s)}
                     ELSE on' = FALSE /\ s' = s
             ELSE UNCHANGED <<best, s>> /\ on' = TRUE
       /\ pc' = "ready" /\ acc' = FALSE /\ UNCHANGED <<c, cand, ops>>
TEnd == /\ IsOp("end") /\ pc = "ready" /\ k > 0 /\ ~(go /\ on)
        /\ IF c.kind = "ils" THEN E.x = cur ELSE E.x \in ArgBest(c.tab, best, c.dir)
        /\ E.f = Fit(c.tab, E.x)
        /\ pc' = "idle" /\ UNCHANGED <<c, cur, cand, go, k, s, best, cnt, ops, acc, on>>
\* ---- the selection on its own
TSInit == IsOp("sinit") /\ E.id \in SelStart(c.sel, c.m) /\ s' = SelInit(E.id) /\ UNCHANGED <<c, cur, cand, pc, go, k, best, cnt, ops, acc, on>>
TSCont == IsOp("scont") /\ E.res = SelMore(s, c.m, c.cycle) /\ UNCHANGED vars
TSNext == IsOp("snext") /\ TRUE = (E.id \in SelNext(c.sel, c.m, s)) /\ s' = SelGo(s, c.m, E.id) /\ UNCHANGED <<c, cur, cand, pc, go, k, best, cnt, ops, acc, on>>
\* ---- initialisers
TInitI == IsOp("init") /\ c.kind = "init" /\ cand' = E.x /\ UNCHANGED <<c, cur, pc, go, k, s, best, cnt, ops, acc, on>>
TInited == IsOp("inited") /\ pc = "improved" /\ E.x = cand /\ E.f = Fit(c.tab, E.x) /\ UNCHANGED vars
TCopied == IsOp("copied") /\ E.x = E.y /\ E.f = E.g /\ UNCHANGED vars
TraceInit == l = 1 /\ c = <<>> /\ cur = -1 /\ cand = -1 /\ pc = "idle" /\ go = FALSE /\ k = 0 /\ s = <<>> /\ best = {} /\ cnt = 0 /\ ops = 0 /\ acc = FALSE /\ on = FALSE
TraceNext == TNew \/ TStart \/ TBegin \/ TPBeg \/ TOp \/ TPInit \/ TPEnd \/ TShake \/ TLs \/ TCrit \/ TIt \/ TEnd \/ TSInit \/ TSCont \/ TSNext \/ TInitI \/ TInited \/ TCopied
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
