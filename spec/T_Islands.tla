---------------------------- MODULE T_Islands ----------------------------
EXTENDS Topology, TraceBase
VARIABLES g, pop, sent, owed, live, gated, early
M == INSTANCE Migration
vars == <<g, pop, sent, owed, live, gated, early>>
Graphs == IF E.kind = "matrix" THEN {MatrixG(E.m)} ELSE IF E.kind = "alone" THEN {[i \in {0} |-> {}]} ELSE Shapes(E.kind, E.n, E.c, 1000)
Nothing == [m \in {} |-> [from |-> 0, ids |-> <<>>]]
\* every copy has arrived, but for those to or from the island that left early
Settled == \A p \in owed : p[2] = early \/ sent[p[1]].from = early
TNew == /\ IsOp("new") /\ g' \in Graphs /\ pop' = [i \in Nodes(E.n) |-> E.pops[i + 1]]
        /\ sent' = Nothing /\ owed' = {} /\ live' = {} /\ gated' = E.gated /\ early' = E.early
\* the model is started (again): every island runs
TRun == IsOp("run") /\ live = {} /\ (gated => Settled) /\ live' = DOMAIN g /\ owed' = {} /\ UNCHANGED <<g, pop, sent, gated, early>>
\* another topology is put in place while nothing is under way
TRetopo == IsOp("retopo") /\ g' \in Graphs /\ UNCHANGED <<pop, sent, owed, live, gated, early>>
TEmit == IsOp("emit") /\ E.pop = pop[E.i] /\ E.running /\ M!Emit(E.i, E.m, E.ids) /\ UNCHANGED <<gated, early>>
\* the batch handed to the integration policy is one emission, whole, evaluated where it arrives
TInteg == /\ IsOp("integ") /\ E.before = pop[E.i] /\ E.msgs # <<>> /\ E.msgs[1] \in DOMAIN sent
          /\ E.msgs = [k \in 1 .. Len(E.ids) |-> E.msgs[1]]
          /\ E.ids = sent[E.msgs[1]].ids
          /\ E.fits = [k \in 1 .. Len(E.ids) |-> E.ids[k] * 10 + E.i]
          /\ M!Integrate(E.i, E.msgs[1], E.after) /\ UNCHANGED <<gated, early>>
\* between two looks at its migration policy: every criterion was asked as often as the others, and each firing had its emigrants chosen
Consulted == /\ \A k \in DOMAIN E.asked : E.asked[k] = E.asked[1]
             /\ E.chosen = E.fired \/ (DOMAIN g = {0} /\ \A k \in DOMAIN E.chosen : E.chosen[k] = 0)
TGen == IsOp("gen") /\ Consulted /\ E.i \in live /\ E.pop = pop[E.i] /\ UNCHANGED vars
TStop == IsOp("stop") /\ Consulted /\ E.pop = pop[E.i] /\ M!Stop(E.i) /\ UNCHANGED <<gated, early>>
\* control comes back: everybody has stopped; what was emitted long enough before the first stop has arrived
TEnd == /\ IsOp("end") /\ live = {} /\ ~E.running /\ (gated => Settled)
        /\ \A i \in DOMAIN g : E.pops[i + 1] = pop[i] /\ E.views[i + 1] = pop[i]
        /\ UNCHANGED vars
TWrap == IsOp("wrap") /\ E.sizes = [k \in 1 .. E.n |-> E.size] /\ E.stops = E.n /\ UNCHANGED vars
TraceInit == l = 1 /\ g = [i \in {} |-> {}] /\ pop = [i \in {} |-> <<>>] /\ sent = Nothing /\ owed = {} /\ live = {} /\ gated = FALSE /\ early = -1
TraceNext == TNew \/ TRun \/ TRetopo \/ TEmit \/ TInteg \/ TGen \/ TStop \/ TEnd \/ TWrap
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==========================================================================
