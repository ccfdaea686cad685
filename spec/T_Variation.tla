---------------------------- MODULE T_Variation -----------------------------
EXTENDS Variation, TraceBase
VARIABLE n0
vars == <<n0>>
TOp == IsOp("rep") /\ TRUE = Honest(E.how, E.a, E.b, E.ret) /\ UNCHANGED vars
\* through a wrapper that marks changed individuals; inner: what the operator itself reported
TWrap == IsOp("wrap") /\ TRUE = (Wrapped(E.how, E.a, E.b, E.ret) /\ (E.known => E.ret = E.inner)) /\ UNCHANGED vars
\* operators that re-evaluate what they change
TSelf == IsOp("self") /\ TRUE = (/\ (E.b[1].v => E.b[1].f = E.truth)
                                 /\ (~E.ret /\ E.b[1].g # E.a[1].g => E.b[1].v)
                                 /\ (E.b[1].g = E.a[1].g /\ E.a[1].v => E.b[1].v)) /\ UNCHANGED vars
\* adaptors report what the operators they are made of report
TAdapt == IsOp("adapt") /\ TRUE = (Honest(E.how, E.a, E.b, E.ret) /\ (E.any => E.ret)) /\ UNCHANGED vars
TraceInit == l = 1 /\ n0 = 0
TraceNext == TOp \/ TWrap \/ TSelf \/ TAdapt
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
