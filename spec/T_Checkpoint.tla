---------------------------- MODULE T_Checkpoint ----------------------------
EXTENDS Checkpoint, TraceBase
VARIABLE n0
vars == <<n0>>
TCp == IsOp("cp") /\ TRUE = CallOk(E.log, E.reg, E.ans, E.out) /\ UNCHANGED vars
\* a checkpoint run only when a signal came in between
TSig == IsOp("sigcp") /\ TRUE = (IF E.raised THEN CallOk(E.log, E.reg, E.ans, E.out) ELSE E.log = <<>> /\ E.out) /\ UNCHANGED vars
\* rows shown: <<counter, best, sum>> of the population of that generation
RowOf(g) == <<E.start + g * E.step, RankedF(E.gens[g], E.dir)[1], SumSeq(E.gens[g])>>
RowsOk == LET N == Len(E.gens) all == [g \in 1..N |-> RowOf(g)] IN
  /\ E.kept = E.pre
  /\ E.rows = (IF E.kind = "over" /\ N > 0 THEN <<all[N]>> ELSE all)
  /\ E.heads = (IF E.head /\ N > 0 THEN 1 ELSE 0)
TRows == IsOp("rows") /\ TRUE = RowsOk /\ UNCHANGED vars
RECURSIVE Timed(_, _, _, _)
Timed(ts, i, last, every) == IF i > Len(ts) THEN <<>> ELSE IF ts[i] >= last + every THEN <<i>> \o Timed(ts, i + 1, ts[i], every) ELSE Timed(ts, i + 1, last, every)
\* a monitor called at the first call, then when the interval has gone by
TimedM(ts, every) == IF ts = <<>> THEN <<>> ELSE <<1>> \o Timed(ts, 2, ts[1], every)
Nums(S) == SetToSortSeq(S, <)
PeriodOk == CASE E.kind = "saver" -> ToSet(E.fired) = FiresAt(E.c0, E.n, E.every) \cup (IF E.last THEN {E.c0 + E.n} ELSE {})
              [] E.kind = "dyn" -> E.fired = Nums(FiresAt(0, E.n, E.every))
              [] E.kind = "snap" -> ToSet(E.fired) = {k + 1 : k \in {z \in E.c0..(E.c0 + E.n - 1) : z % E.every = 0}}
              [] E.kind \in {"tsaver", "tdyn"} -> E.fired = Timed(E.ts, 1, 0, E.every)
              [] E.kind = "tmon" -> E.fired = TimedM(E.ts, E.every)
              [] E.kind = "gencount" -> E.fired = [i \in 1..E.n |-> E.c0 + i - 1]
              [] E.kind = "incr" -> E.fired = [i \in 1..E.n |-> E.c0 + i * E.every]
TPeriod == IsOp("period") /\ TRUE = PeriodOk /\ UNCHANGED vars
\* a snapshot holds every vector monitored, one column each (numbered rows if there is only one)
SnapOk == LET m == Len(E.vs) k == Len(E.vs[1]) IN
  E.rows = (IF m = 1 THEN [i \in 1..k |-> <<i - 1, E.vs[1][i]>>] ELSE [i \in 1..k |-> [j \in 1..m |-> E.vs[j][i]]])
TSnap == IsOp("snap") /\ TRUE = SnapOk /\ UNCHANGED vars
\* the time shown is CPU seconds, or elapsed seconds on long runs
TTime == IsOp("time") /\ TRUE = (E.v = (IF E.elapsed > 2140 THEN E.elapsed ELSE E.cpu)) /\ UNCHANGED vars
TRefuse == IsOp("refuse") /\ TRUE = E.thrown /\ UNCHANGED vars
TraceInit == l = 1 /\ n0 = 0
TraceNext == TCp \/ TSig \/ TRows \/ TPeriod \/ TSnap \/ TTime \/ TRefuse
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
