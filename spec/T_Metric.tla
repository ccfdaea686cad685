------------------------------ MODULE T_Metric ------------------------------
(* Indicator values recorded from the real code (fixed point, scale SC).     *)
EXTENDS Metric, TraceBase
VARIABLE dirs
SC == 10000
N == Len(dirs)
\* r is the fixed-point rendering of vol/unit
Is(r, vol, unit) == Abs(r * unit - vol * SC) <= unit
TSetup == IsOp("new") /\ dirs' = E.dirs
S1 == ToSet(E.s1)
S2 == ToSet(E.s2)
TwoPow == 2 ^ N
THV ==
  /\ IsOp("hv") /\ UNCHANGED dirs
  /\ CASE E.kind = "ref" -> Is(E.r, HVRef(S1, E.ref2, dirs), TwoPow)
       [] E.kind = "norm" -> Is(E.r, HVNorm(S1, S1, E.rho2, dirs), UnitNorm(S1, N))
       \* normalised, explicit reference: nadir + 1 range = rho 2
       [] E.kind = "normref" -> Is(E.r, HVNorm(S1, S1, 4, dirs), UnitNorm(S1, N))
       [] E.kind = "rho" -> Is(E.r, HVRef(S1, RhoRef2(S1, E.rho2, dirs), dirs), TwoPow)
THVDiff ==
  /\ IsOp("hvdiff") /\ UNCHANGED dirs
  /\ LET U == S1 \cup S2 IN
     CASE E.kind = "ref" -> Is(E.r, HVRef(S1, E.ref2, dirs) - HVRef(S2, E.ref2, dirs), TwoPow)
       [] E.kind = "norm" -> Is(E.r, HVNorm(S1, U, E.rho2, dirs) - HVNorm(S2, U, E.rho2, dirs), UnitNorm(U, N))
       [] E.kind = "normref" -> Is(E.r, HVNorm(S1, U, 4, dirs) - HVNorm(S2, U, 4, dirs), UnitNorm(U, N))
       \* an objective without spread moves the reference by a millionth of a unit
       [] E.kind = "rho" -> LET ref == RhoRef2(U, E.rho2, dirs)
                                a == HVRef(S1, ref, dirs)
                                b == HVRef(S2, ref, dirs)
                            IN Abs(E.r * TwoPow - (a - b) * SC) <= TwoPow + (a + b) \div 5
Rng(U) == [i \in DOMAIN dirs |-> LET r == Spread(U, i) IN IF r = 0 THEN 1 ELSE r]
TEps ==
  /\ IsOp("eps") /\ UNCHANGED dirs
  /\ CASE E.kind = "add" -> E.r = EpsAdd(S1, S2, dirs) * SC
       [] E.kind = "addnorm" -> Abs(E.r - EpsAddNorm(S1, S2, Rng(S1 \cup S2), dirs, SC)) <= 1
       [] E.kind = "mul" -> Abs(E.r - EpsMul(S1, S2, dirs, SC)) <= 1
\* one solution against another under given bounds
TPair ==
  /\ IsOp("pair") /\ UNCHANGED dirs
  /\ Abs(E.eps - EpsAddNorm({E.a}, {E.b}, [i \in DOMAIN dirs |-> E.hi[i] - E.lo[i]], dirs, SC)) <= 1
  /\ Is(E.hv, HVBin(E.a, E.b, E.lo, E.hi, E.rho2, dirs), ProdSeq([i \in DOMAIN dirs |-> E.rho2 * (E.hi[i] - E.lo[i])]))
TContrib ==
  /\ IsOp("contrib") /\ UNCHANGED dirs
  /\ Is(E.r, ContribNum2(E.s1, E.s2, dirs), 2 * ContribDen(E.s1, E.s2, dirs))
TRefDist == IsOp("refdist") /\ UNCHANGED dirs /\ E.r = SumSeq([i \in DOMAIN dirs |-> Abs(E.a[i] - E.b[i])])
TraceInit == l = 1 /\ dirs = <<>>
TraceNext == TSetup \/ THV \/ THVDiff \/ TEps \/ TPair \/ TContrib \/ TRefDist
TraceSpec == TraceInit /\ [][TraceNext]_<<dirs, l>>
=============================================================================
