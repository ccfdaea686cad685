--------------------------- MODULE T_Permutation ----------------------------
EXTENDS Permutation, TraceBase
VARIABLE n0
vars == <<n0>>
MutOk == LET p == E.p r == E.r IN
  CASE E.kind = "swap" -> IsSwaps(p, r, E.k) /\ (E.k = 1 => (r = p \/ r \in Swaps(p)))
    [] E.kind = "shift" -> r \in Shifts(p)
    [] E.kind = "twoopt" -> r \in TwoOpts(p)
TMut == IsOp("mut") /\ TRUE = (MutOk /\ IsPerm(E.r, ToSet(E.p))) /\ UNCHANGED vars
CrossOk == CASE E.kind = "ox" -> <<E.r1, E.r2>> \in OXs(E.p, E.q)
             [] E.kind = "pmx" -> <<E.r1, E.r2>> \in PMXs(E.p, E.q)
TCross == IsOp("cross") /\ TRUE = (CrossOk /\ IsPerm(E.r1, ToSet(E.p)) /\ IsPerm(E.r2, ToSet(E.p))) /\ UNCHANGED vars
TInit == IsOp("init") /\ TRUE = IsPerm(E.r, E.from..(E.from + E.n - 1)) /\ UNCHANGED vars
\* a long run of operators over one population
TRun == IsOp("run") /\ TRUE = (\A i \in DOMAIN E.pop : IsPerm(E.pop[i], E.from..(E.from + E.n - 1))) /\ UNCHANGED vars
TRefuse == IsOp("refuse") /\ TRUE = (E.threw = (E.k < 1)) /\ UNCHANGED vars
TraceInit == l = 1 /\ n0 = 0
TraceNext == TMut \/ TCross \/ TInit \/ TRun \/ TRefuse
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
