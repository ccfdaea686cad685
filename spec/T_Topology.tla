---------------------------- MODULE T_Topology ----------------------------
EXTENDS Topology, TraceBase
VARIABLES gs, c0, r0, bm
vars == <<gs, c0, r0, bm>>
AsG(nb) == [i \in Nodes(Len(nb)) |-> ToSet(nb[i + 1])]
Clean(nb) == \A i \in 1 .. Len(nb) : NoDup(nb[i])
\* gs: the graphs the object may hold (several only when a mesh ratio ties)
TNew == IsOp("new") /\ gs' = {} /\ c0' = 0 /\ r0' = 1000 /\ UNCHANGED bm
TCentre == IsOp("centre") /\ c0' = E.c /\ UNCHANGED <<gs, r0, bm>>
TRatio == IsOp("ratio") /\ r0' = E.r /\ UNCHANGED <<gs, c0, bm>>
TBuild == IsOp("build") /\ Admissible(E.kind, E.n, c0) /\ gs' = Shapes(E.kind, E.n, c0, r0) /\ UNCHANGED <<c0, r0, bm>>
TFile == IsOp("file") /\ E.ok = Square(E.m) /\ gs' = (IF E.ok THEN {MatrixG(E.m)} ELSE {}) /\ UNCHANGED <<c0, r0, bm>>
TNoFile == IsOp("nofile") /\ E.thrown /\ UNCHANGED vars
TCut == IsOp("isolate") /\ gs' = {Isolate(g, E.k) : g \in gs} /\ UNCHANGED <<c0, r0, bm>>
TNb == IsOp("nb") /\ Clean(E.nb) /\ AsG(E.nb) \in gs /\ gs' = {AsG(E.nb)} /\ UNCHANGED <<c0, r0, bm>>
\* a random graph: an arc of weight 0 never, of weight 1 always, others now and then
TStoch == /\ IsOp("stoch")
          /\ TRUE = (\A i \in 1 .. Len(E.cnt) : \A j \in 1 .. Len(E.cnt) :
               LET p == MinOf(1000, MaxOf(0, E.w[i][j])) c == E.cnt[i][j] IN
               /\ (p <= 0) => (c = 0)
               /\ (p >= 1000) => (c = E.times)
               /\ 1000 * c <= p * E.times + E.slack * 1000
               /\ 1000 * c >= p * E.times - E.slack * 1000)
          /\ UNCHANGED vars
TBNew == IsOp("bnew") /\ bm' = {} /\ UNCHANGED <<gs, c0, r0>>
TBAdd == IsOp("badd") /\ bm' = bm \cup {<<E.a, E.b>>} /\ UNCHANGED <<gs, c0, r0>>
TBGet == /\ IsOp("bget")
         /\ {<<E.right[i][1], E.right[i][2]>> : i \in 1 .. Len(E.right)} = bm
         /\ {<<E.left[i][2], E.left[i][1]>> : i \in 1 .. Len(E.left)} = bm
         /\ Len(E.right) = Cardinality(bm) /\ E.size = Cardinality(bm) /\ E.empty = (bm = {})
         /\ UNCHANGED vars
TraceInit == l = 1 /\ gs = {} /\ c0 = 0 /\ r0 = 1000 /\ bm = {}
TraceNext == TNew \/ TCentre \/ TRatio \/ TBuild \/ TFile \/ TNoFile \/ TCut \/ TNb \/ TStoch \/ TBNew \/ TBAdd \/ TBGet
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
===========================================================================
