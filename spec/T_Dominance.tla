---------------------------- MODULE T_Dominance -----------------------------
(* Answers recorded from the real comparators.                              *)
EXTENDS Dominance, TraceBase
VARIABLE dirs
B(x) == x                 \* recorded booleans

TSetup == IsOp("setup") /\ dirs' = E.dirs /\ E.n = Len(E.dirs) /\ E.min = E.dirs
TVec ==
  /\ IsOp("vec") /\ UNCHANGED dirs
  /\ E.pareto = CmpPareto(E.u, E.v, dirs)
  /\ E.dominates = CmpPareto(E.v, E.u, dirs)      \* u.dominates(v)
  /\ E.weak = CmpWeak(E.u, E.v, dirs)
  /\ E.strict = CmpStrict(E.u, E.v, dirs)
  /\ E.lex = LexLess(E.u, E.v)
  /\ E.eq = (E.u = E.v) /\ E.ne = (E.u # E.v)
  /\ E.lt = LexLess(E.u, E.v) /\ E.gt = LexLess(E.v, E.u)
  /\ E.le = ~LexLess(E.v, E.u) /\ E.ge = ~LexLess(E.u, E.v)
TEps == IsOp("eps") /\ UNCHANGED dirs /\ E.r = CmpEps(E.u, E.v, dirs, E.num, E.den)
TSol ==
  /\ IsOp("sol") /\ UNCHANGED dirs
  /\ E.fd = FitThenDiv(E.a, E.b) /\ E.df = DivThenFit(E.a, E.b) /\ E.fo = (E.a.f < E.b.f)
  /\ E.ag = Aggregate(E.a, E.b, E.wf, E.wd)
  /\ E.moeo = LexLess(E.a.v, E.b.v)
  /\ E.ptr = FitThenDiv(E.a, E.b)
  /\ \A i \in DOMAIN dirs : E.one[i] = (E.a.v[i] < E.b.v[i])
TDual == IsOp("dual") /\ UNCHANGED dirs /\ E.r = CmpDual(E.u, E.fu, E.v, E.fv, dirs)
TraceInit == l = 1 /\ dirs = <<>>
TraceNext == TSetup \/ TVec \/ TEps \/ TSol \/ TDual
TraceSpec == TraceInit /\ [][TraceNext]_<<dirs, l>>
=============================================================================
