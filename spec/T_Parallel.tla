---------------------------- MODULE T_Parallel ----------------------------
EXTENDS ParallelApply, TraceBase
vars == pvars
TApply == IsOp("apply") /\ Begin(E.n, E.w)
TIn == IsOp("in") /\ Enter(E.i, E.t)
TOut == IsOp("out") /\ Leave(E.i, E.t)
\* the caller goes on: everything has been done, in place, nothing moved
TEnd == /\ IsOp("end") /\ Finish
        /\ E.ids = [k \in 1 .. n |-> k] /\ E.marks = [k \in 1 .. n |-> 1]
\* a run on several threads against the same run on one
TSame == IsOp("same") /\ over /\ E.got = E.want /\ E.evals = E.wevals /\ UNCHANGED vars
TraceInit == l = 1 /\ n = 0 /\ w = 1 /\ todo = {} /\ busy = {} /\ over = TRUE
TraceNext == TApply \/ TIn \/ TOut \/ TEnd \/ TSame
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
===========================================================================
