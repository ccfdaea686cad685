--------------------------- MODULE T_FitnessOrder ---------------------------
EXTENDS FitnessOrder, TraceBase
VARIABLE n0
vars == <<n0>>
TCmp == IsOp("cmp") /\ UNCHANGED vars /\ TRUE = (LET w == Worse(E.a, E.b, E.dir) v == Worse(E.b, E.a, E.dir) IN E.lt = w /\ E.gt = v /\ E.le = ~v /\ E.ge = ~w)
TEo == IsOp("eo") /\ UNCHANGED vars /\ TRUE = (E.lt = Worse(E.a, E.b, E.dir) /\ E.gt = Worse(E.b, E.a, E.dir))
TSort == IsOp("sort") /\ UNCHANGED vars /\ TRUE = SortedAs(E.p, E.r, E.dir)
TBest == IsOp("best") /\ UNCHANGED vars /\ TRUE = IsBestOf(E.x, E.p, E.dir)
TWorst == IsOp("worst") /\ UNCHANGED vars /\ TRUE = IsWorstOf(E.x, E.p, E.dir)
TNth == IsOp("nth") /\ UNCHANGED vars /\ TRUE = ((\E i \in Ix(E.p) : Fit(E.p[i]) = Fit(E.x)) /\ IsNth(E.x, E.p, E.n, E.dir))
TSplit == IsOp("split") /\ UNCHANGED vars /\ TRUE = (E.yes = FeasibleOf(E.p) /\ E.no = InfeasibleOf(E.p) /\ IsPermOf(E.p, E.all))
\* a statistic of the feasible and one of the infeasible ones (here: their numbers, in order)
TSwitch == IsOp("switch") /\ UNCHANGED vars /\ TRUE = (LET Num(q) == [i \in DOMAIN q |-> q[i][3]] IN E.fe = Num(FeasibleOf(E.p)) /\ E.un = Num(InfeasibleOf(E.p)))
TRatio == IsOp("ratio") /\ UNCHANGED vars /\ TRUE = (E.r * Len(E.p) = E.one * Len(FeasibleOf(E.p)))
TArith == IsOp("arith") /\ UNCHANGED vars /\ TRUE = (E.r = Combine(E.a, E.b, E.how) /\ (IF E.inplace THEN E.after = E.r ELSE E.after = E.a) /\ E.bafter = E.b)
TConv == IsOp("conv") /\ UNCHANGED vars /\ TRUE = (E.v = E.got)
TTerm == IsOp("term") /\ UNCHANGED vars /\ TRUE = (E.desc = E.got)
\* statistics of one term of an assembled fitness: the failed ones do not count in the average
TAvg == IsOp("avg") /\ UNCHANGED vars
        /\ TRUE = (LET S == {i \in Ix(E.t) : E.failed[i] = 0} IN E.r * Cardinality(S) = E.one * SumFun(E.t, S))
TRefuse == IsOp("refuse") /\ UNCHANGED vars /\ TRUE = E.threw
TraceInit == l = 1 /\ n0 = 0
TraceNext == TCmp \/ TEo \/ TSort \/ TBest \/ TWorst \/ TNth \/ TSplit \/ TRatio \/ TArith \/ TConv \/ TTerm \/ TAvg \/ TRefuse \/ TSwitch
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
