---------------------------- MODULE T_Evaluation ----------------------------
EXTENDS Evaluation, TraceBase
VARIABLES w, s
vars == <<w, s>>
TNew == IsOp("enew") /\ w' = [kind |-> E.kind, max |-> E.max, dir |-> E.dir] /\ s' = EInit(E.now)
EvalOk(z) == /\ E.z = z
             /\ E.ncalls = Calls(w, s, E.x, E.now)
             /\ E.thrown = Throws(w, s, E.x, E.y, E.now)
             /\ (w.kind \in Counts => E.val = Calls(w, s, E.x, E.now))
             /\ (w.kind = "keep" => LET nb == NewBest(s, z, w.dir) IN
                   /\ E.best[2] = (IF nb THEN z[2] ELSE s.best[2])
                   /\ (IF nb THEN E.best = z ELSE E.best \in {s.best, z})
                   \* the very first one may or may not be announced
                   /\ (s.best[2] # Inv => E.found = nb))
TEval == /\ IsOp("eval")
         /\ LET z == After(w, s, E.x, E.y, E.now) IN
            /\ TRUE = EvalOk(z)
            /\ s' = [s EXCEPT !.calls = E.ncalls, !.best = (IF w.kind = "keep" THEN E.best ELSE s.best)]
         /\ UNCHANGED w
\* the memory of the best is replaced by the given individual (or emptied)
TReset == IsOp("kreset") /\ s' = [s EXCEPT !.best = E.best] /\ TRUE = (E.got = E.best) /\ UNCHANGED w
\* whole populations: k[i] objective calls for individual i
Once(ps, zs, ks) == /\ Len(zs) = Len(ps) /\ Len(ks) = Len(ps)
  /\ \A i \in DOMAIN ps : IF ps[i][2] = Inv THEN ks[i] = 1 /\ zs[i] = <<ps[i][1], 2 * ps[i][1] + 1>> ELSE ks[i] = 0 /\ zs[i] = ps[i]
Every(ps, zs, ks) == Len(zs) = Len(ps) /\ \A i \in DOMAIN ps : ks[i] = 1 /\ zs[i] = <<ps[i][1], 2 * ps[i][1] + 1>>
TPop == /\ IsOp("epop")
        /\ TRUE = (CASE E.kind \in {"loop", "omp", "ompdyn"} -> Once(E.off, E.offz, E.offk) /\ E.parz = E.par
                     [] E.kind = "apply" -> Every(E.off, E.offz, E.offk)
                     [] E.kind = "vary" -> Every(E.off, E.offz, E.offk) /\ Every(E.par, E.parz, E.park))
        /\ UNCHANGED vars
\* a whole run under a budget: ends by it (announced when the last evaluation allowed is done)
TRun == /\ IsOp("run")
        /\ TRUE = (/\ E.val = E.calls
                   /\ (IF E.stopped THEN E.calls = E.max ELSE E.calls < E.max)
                   /\ (E.needed >= E.max => E.stopped)
                   /\ (E.calls > 0 => E.best = (IF E.dir = 0 THEN E.hi ELSE E.lo)))
        /\ UNCHANGED vars
\* what is written after each evaluation is the individual evaluated
TOut == IsOp("out") /\ TRUE = (E.text = E.want /\ E.n = E.k) /\ UNCHANGED vars
TFun == IsOp("fcount") /\ TRUE = (E.val = E.asked /\ E.ncalls = E.asked /\ E.same) /\ UNCHANGED vars
TraceInit == l = 1 /\ w = [kind |-> "none", max |-> 0, dir |-> 0] /\ s = EInit(0)
TraceNext == TNew \/ TEval \/ TReset \/ TPop \/ TRun \/ TOut \/ TFun
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
