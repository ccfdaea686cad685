---------------------------- MODULE T_Evolution -----------------------------
(* Runs of the real algorithms.                                              *)
EXTENDS Evolution, TraceBase
VARIABLES c, pop, off, phase, t
vars == <<c, pop, off, phase, t>>
\* c: the configuration, with the objective's modulus m, dir, and drift
T0 == IF c.drift THEN t ELSE 0
TRun == /\ IsOp("run") /\ phase = "idle" /\ c' = E /\ pop' = E.pop /\ off' = <<>> /\ t' = 0
        /\ TRUE = Honest(E.pop, E.m, 0)
        /\ TRUE = (E.pre => Truthful(E.pop, E.m, 0))
        /\ phase' = "start"
TBreed == /\ IsOp("breed") /\ phase = "start"
          /\ Genos(E.parents) = Genos(pop)
          /\ TRUE = (c.drift \/ Truthful(E.parents, c.m, 0))
          /\ TRUE = (c.drift \/ Honest(E.off, c.m, 0))
          /\ off' = E.off /\ phase' = "bred" /\ UNCHANGED <<c, pop, t>>
Ready == /\ Genos(E.pin) = Genos(pop) /\ Genos(E.oin) = Genos(off)
         /\ TRUE = Truthful(E.pin, c.m, T0) /\ TRUE = Truthful(E.oin, c.m, T0)
TReplace == /\ IsOp("replace") /\ phase = "bred" /\ Ready
            /\ TRUE = (E.bad \/ Replaces(E.pout, E.pin, E.oin))
            /\ pop' = E.pout /\ phase' = (IF E.bad THEN "bad" ELSE "ask") /\ UNCHANGED <<c, off, t>>
TMerge == /\ IsOp("merge") /\ phase = "bred" /\ Ready
          /\ TRUE = MultiIn(E.out, E.pin \o E.oin)
          /\ off' = E.out /\ phase' = "merged" /\ UNCHANGED <<c, pop, t>>
TReduce == /\ IsOp("reduce") /\ phase = "merged" /\ E.in = off /\ E.n = Len(pop)
           /\ TRUE = (MultiIn(E.out, E.in) /\ Len(E.out) = E.n)
           /\ pop' = E.out /\ phase' = "ask" /\ UNCHANGED <<c, off, t>>
\* a replacement that changes the size of the population is refused
TThrew == IsOp("threw") /\ phase = "bad" /\ phase' = "idle" /\ UNCHANGED <<c, pop, off, t>>
TCont == /\ IsOp("cont") /\ phase = "ask" /\ E.pop = pop
         /\ TRUE = Truthful(E.pop, c.m, T0)
         /\ phase' = (IF E.go THEN "start" ELSE "stop") /\ t' = t + 1 /\ UNCHANGED <<c, pop, off>>
\* algorithms observed once per generation
TGen == /\ IsOp("gen") /\ phase = "start"
        /\ TRUE = Truthful(E.pop, c.m, T0)
        /\ TRUE = (CASE c.alg = "sga" -> SGAStep(E.pop, pop, c.crate, c.mrate)
                     [] c.alg = "fast" -> FastStep(E.pop, pop, c.offn, c.crate, c.mrate)
                     [] c.alg = "cell" -> CellStep(E.pop, pop, c.best, c.min)
                     [] OTHER -> Len(E.pop) = Len(pop))
        /\ pop' = E.pop /\ phase' = (IF E.go THEN "start" ELSE "stop") /\ t' = t + 1 /\ UNCHANGED <<c, off>>
\* restarts: a fresh evaluated population each time, made by the initializer in
\* its order; what the inner algorithm leaves is what the criterion sees
TFresh == /\ IsOp("fresh") /\ phase = "start"
          /\ Genos(E.pop) = E.inits /\ Len(E.pop) = c.n
          /\ TRUE = Truthful(E.pop, c.m, 0)
          /\ pop' = E.out /\ phase' = "ask" /\ UNCHANGED <<c, off, t>>
TEnd == /\ IsOp("end") /\ phase = "stop" /\ E.pop = pop /\ phase' = "idle" /\ UNCHANGED <<c, pop, off, t>>
\* genotypes that are not integers: the driver compared the bit patterns
TReal == /\ IsOp("real") /\ phase = "idle" /\ E.n = E.n0
         /\ TRUE = (\A i \in DOMAIN E.same : E.same[i] = 1) /\ Len(E.same) = E.n
         /\ UNCHANGED vars
TCount == /\ IsOp("count") /\ phase \in {"idle", "stop"} /\ E.got = E.want
          /\ phase' = "idle" /\ UNCHANGED <<c, pop, off, t>>
TraceInit == l = 1 /\ c = <<>> /\ pop = <<>> /\ off = <<>> /\ phase = "idle" /\ t = 0
TraceNext == TRun \/ TBreed \/ TReplace \/ TMerge \/ TReduce \/ TThrew \/ TCont \/ TGen \/ TFresh \/ TEnd \/ TReal \/ TCount
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
