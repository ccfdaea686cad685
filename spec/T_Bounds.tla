------------------------------ MODULE T_Bounds ------------------------------
EXTENDS Bounds, TraceBase
VARIABLE n0
vars == <<n0>>
\* ---- a bound and one value ----
BndOk == LET b == E.b x == E.x IN
  /\ E.in = InB(b, x) /\ E.trunc = Trunc(b, x)
  /\ E.bounded = (b.ml /\ b.mh) /\ E.free = (~b.ml /\ ~b.mh) /\ E.minb = b.ml /\ E.maxb = b.mh
  /\ (IF E.far /\ ~InB(b, x) /\ b.ml /\ b.mh THEN InB(b, E.fold) ELSE E.fold = Fold(b, x))
  /\ (b.ml => E.lo = b.lo) /\ (b.mh => E.hi = b.hi) /\ ((b.ml /\ b.mh) => E.range = b.hi - b.lo)
  /\ E.threw = <<~b.ml, ~b.mh, ~(b.ml /\ b.mh), ~(b.ml /\ b.mh)>>
  /\ ((b.ml /\ b.mh) => \A i \in DOMAIN E.uni : InBT(b, E.uni[i], 0))
TBnd == IsOp("bnd") /\ TRUE = BndOk /\ UNCHANGED vars
\* ---- bounds on a vector ----
VecOk == LET B == E.B x == E.x I == DOMAIN E.B IN
  /\ Len(E.fold) = Len(x) /\ Len(E.trunc) = Len(x)
  /\ \A i \in I : E.fold[i] = Fold(B[i], x[i]) /\ E.trunc[i] = Trunc(B[i], x[i]) /\ E.in1[i] = InB(B[i], x[i])
  /\ E.in = (\A i \in I : InB(B[i], x[i]))
  /\ E.bounded = (\A i \in I : B[i].ml /\ B[i].mh) /\ E.free = (\A i \in I : ~B[i].ml /\ ~B[i].mh)
  /\ (E.bounded => (E.total = SumFun([i \in I |-> B[i].hi - B[i].lo], I)) /\ Len(E.uni) = Len(B) /\ \A i \in I : InBT(B[i], E.uni[i], 0))
TVec == IsOp("vec") /\ TRUE = VecOk /\ UNCHANGED vars
\* ---- bounds given as text: what is obtained, what is printed and read again ----
Norm(b) == [ml |-> b.ml, mh |-> b.mh, lo |-> IF b.ml THEN b.lo ELSE 0, hi |-> IF b.mh THEN b.hi ELSE 0]
NormAll(s) == [i \in DOMAIN s |-> Norm(s[i])]
ParseOk == LET want == Stretch(Spread(E.list), E.old) IN
  /\ NormAll(E.got) = NormAll(want) /\ NormAll(E.again) = NormAll(want) /\ NormAll(E.copy) = NormAll(want)
  /\ NormAll(E.adj) = NormAll(Stretch(want, E.size))
TParse == IsOp("parse") /\ TRUE = ParseOk /\ UNCHANGED vars
TGen == IsOp("gen") /\ TRUE = (IF E.bad THEN E.threw ELSE ~E.threw /\ Norm(E.got) = Norm(E.b) /\ Norm(E.again) = Norm(E.b) /\ Norm(E.asg) = Norm(E.b)) /\ UNCHANGED vars
TRefuse == IsOp("refuse") /\ TRUE = (E.threw = E.want) /\ UNCHANGED vars
\* ---- operators: measurements in units with one unit of tolerance ----
AllIn(B, r) == \A i \in DOMAIN r : B = <<>> \/ InBT(B[i], r[i], 1)
Changed(p, r) == {i \in DOMAIN p : p[i] # r[i]}
MutOk == LET p == E.p r == E.r B == E.B IN
  /\ Len(r) = Len(p) /\ AllIn(B, r)
  /\ (E.most >= 0 => Cardinality({i \in DOMAIN p : E.chg[i]}) <= E.most)
  /\ \A i \in DOMAIN p : E.amp[i] >= 0 => Close(r[i], p[i], E.amp[i] + 1)
TMut == IsOp("mut") /\ TRUE = MutOk /\ UNCHANGED vars
CrossOk == LET p == E.p q == E.q r == E.r s == E.s B == E.B IN
  /\ Len(r) = Len(p) /\ Len(s) = Len(q) /\ AllIn(B, r) /\ AllIn(B, s)
  /\ CASE E.kind = "segment" -> /\ \A i \in DOMAIN p : Close(r[i] + s[i], p[i] + q[i], 2) /\ Extended(r[i], p[i], q[i], E.a, 2) /\ Extended(s[i], p[i], q[i], E.a, 2)
                                /\ OneFactor(r, p, q, 2)
       [] E.kind = "box" -> \A i \in DOMAIN p : Extended(r[i], p[i], q[i], E.a, 2) /\ Extended(s[i], p[i], q[i], E.a, 2) /\ (E.a = 0 => Close(r[i] + s[i], p[i] + q[i], 2))
       [] E.kind = "ux" -> \A i \in DOMAIN p : (r[i] = p[i] /\ s[i] = q[i]) \/ (r[i] = q[i] /\ s[i] = p[i])
       [] E.kind = "sbx" -> (B = <<>> \/ ~B[1].ml) => \A i \in DOMAIN p : Close(r[i] + s[i], p[i] + q[i], 2)
       [] E.kind = "exchange" -> \A i \in DOMAIN p : (r[i] = p[i] \/ r[i] = q[i]) /\ s[i] = q[i]
       [] E.kind = "intermediate" -> \A i \in DOMAIN p : Between(r[i], p[i], q[i], 1) /\ s[i] = q[i]
TCross == IsOp("cross") /\ TRUE = CrossOk /\ UNCHANGED vars
TInit == IsOp("init") /\ TRUE = (Len(E.r) = Len(E.B) /\ AllIn(E.B, E.r) /\ ~E.valid) /\ UNCHANGED vars
\* initial step sizes: the given one, or scaled by the width of the bounds (unit: 1/8)
SigmaOk == LET n == Len(E.B) w == [i \in 1..n |-> E.B[i].hi - E.B[i].lo] IN
  /\ \A i \in DOMAIN E.dev : Close(8 * E.dev[i], IF E.scaled THEN (IF E.single THEN (E.s8 * SumSeq(w)) \div n ELSE E.s8 * w[i]) ELSE E.s8 * E.unit, 16)
  /\ Len(E.dev) = (IF E.single THEN 1 ELSE n) /\ Len(E.cor) = (IF E.full THEN (n * (n - 1)) \div 2 ELSE 0) /\ \A k \in DOMAIN E.cor : Abs(E.cor[k]) <= E.pi
TSigma == IsOp("sigma") /\ TRUE = SigmaOk /\ UNCHANGED vars
\* self-adaptive mutation: object variables in bounds, positive deviations, angles within a half turn
TEs == IsOp("esmut") /\ TRUE = (Len(E.r) = Len(E.p) /\ AllIn(E.B, E.r) /\ E.devpos /\ (\A k \in DOMAIN E.cor : Abs(E.cor[k]) <= E.pi) /\ E.ndev = E.ndev0 /\ Len(E.cor) = E.ncor0) /\ UNCHANGED vars
\* recombination over a whole population, coordinate by coordinate
Hull(r, P, k) == \A i \in DOMAIN r : LET c == {P[j][i] : j \in DOMAIN P} IN (IF k = "exchange" THEN r[i] \in c ELSE r[i] >= Min(c) - 1 /\ r[i] <= Max(c) + 1)
TGlobal == IsOp("global") /\ TRUE = (Hull(E.r, E.P, E.kind1) /\ Hull(E.dev, E.D, E.kind2) /\ ~E.valid /\ E.same) /\ UNCHANGED vars
TStd == IsOp("esx") /\ TRUE = (Hull(E.r, E.P, E.kind1) /\ Hull(E.dev, E.D, E.kind2) /\ E.same) /\ UNCHANGED vars
\* a real-valued operator used on integers: rounded, then repaired (unit of the reals: 1/8)
ToInt(b, k, folds) == LET z == RoundAway(k, 8) IN IF InB(b, z) THEN z ELSE IF folds THEN Fold(b, z) ELSE Trunc(b, z)
TToInt == IsOp("toint") /\ TRUE = (IF E.chg THEN Len(E.r) = Len(E.y) /\ \A i \in DOMAIN E.y : E.r[i] = ToInt(E.b, E.y[i], E.folds) ELSE E.r = E.p) /\ UNCHANGED vars
TraceInit == l = 1 /\ n0 = 0
TraceNext == TBnd \/ TVec \/ TParse \/ TGen \/ TRefuse \/ TMut \/ TCross \/ TInit \/ TSigma \/ TEs \/ TGlobal \/ TStd \/ TToInt
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
