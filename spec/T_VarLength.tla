---------------------------- MODULE T_VarLength -----------------------------
EXTENDS VarLength, TraceBase
VARIABLE n0
vars == <<n0>>
Near(c, K, num, den) == LET e == (K * num) \div den IN Abs(c - e) <= 7 * ISqrt(e) + 7
\* rates 0 and 1 leave no choice
Forced(kind, p, q, r, s, e) == CASE kind = "vlatom" /\ e = 8 -> r = p /\ s = q
  [] kind = "vlatom" /\ e = 0 -> r = q /\ s = p
  [] kind = "vluni" /\ e = 8 -> r = p \o q /\ s = <<>>
  [] kind = "vluni" /\ e = 0 -> r = <<>> /\ s = p \o q
  [] OTHER -> TRUE
ShareOk == /\ (IF E.ret THEN Redistributed(E.p, E.q, E.r, E.s, E.lo, E.hi) /\ Forced(E.kind, E.p, E.q, E.r, E.s, E.e) ELSE E.r = E.p /\ E.s = E.q)
           /\ (~CanShare(Len(E.p) + Len(E.q), E.lo, E.hi) => ~E.ret)
           /\ (E.e = 4 /\ CanShare(Len(E.p) + Len(E.q), E.lo, E.hi) => E.ret)
TShare == IsOp("share") /\ TRUE = ShareOk /\ UNCHANGED vars
TakeOk == /\ E.same /\ (~E.ret => E.r = E.p)
          /\ (E.r = E.p \/ (PartBy(E.r, E.p, E.q) /\ InLim(Len(E.r), E.lo, E.hi)))
          /\ (E.e = 8 => E.r = E.p) /\ (E.e = 0 /\ InLim(Len(E.q), E.lo, E.hi) => E.r = E.q)
          /\ (E.e = 4 /\ CanTake(Len(E.p) + Len(E.q), E.lo, E.hi) => InLim(Len(E.r), E.lo, E.hi))
TTake == IsOp("take") /\ TRUE = TakeOk /\ UNCHANGED vars
TAdd == IsOp("add") /\ TRUE = (IF Len(E.p) >= E.hi THEN ~E.ret /\ E.r = E.p ELSE E.ret /\ E.r \in Insertions(E.p, E.x)) /\ UNCHANGED vars
TDel == IsOp("del") /\ TRUE = (IF Len(E.p) <= E.lo THEN ~E.ret /\ E.r = E.p ELSE E.ret /\ (IF E.pos > 0 THEN E.r = RemoveAt(E.p, E.pos) ELSE E.r \in Deletions(E.p))) /\ UNCHANGED vars
\* position by position: exchanged or not; longer parent keeps its tail
InnerOk == LET m == MinOf(Len(E.p), Len(E.q)) Sw(i) == E.r[i] = E.q[i] /\ E.s[i] = E.p[i] St(i) == E.r[i] = E.p[i] /\ E.s[i] = E.q[i] IN
  /\ Len(E.r) = Len(E.p) /\ Len(E.s) = Len(E.q)
  /\ \A i \in 1..m : Sw(i) \/ St(i)
  /\ (\A i \in (m + 1)..Len(E.p) : E.r[i] = E.p[i]) /\ (\A i \in (m + 1)..Len(E.q) : E.s[i] = E.q[i])
  /\ (E.e = 8 => \A i \in 1..m : Sw(i)) /\ (E.e = 0 => \A i \in 1..m : St(i))
  /\ E.ret = (E.r # E.p)
TInner == IsOp("inner") /\ TRUE = InnerOk /\ UNCHANGED vars
\* atoms altered one by one: +1000 for each alteration
FlorOk == LET d == [i \in DOMAIN E.p |-> (E.r[i] - E.p[i]) \div 1000] IN
  /\ Len(E.r) = Len(E.p) /\ (\A i \in DOMAIN E.p : E.r[i] = E.p[i] + 1000 * d[i] /\ d[i] >= 0)
  /\ (IF E.still THEN E.r = E.p /\ ~E.ret ELSE E.ret = (E.r # E.p))
  /\ (~E.still /\ E.kind = "flork" => SumSeq(d) = E.nb)
  /\ (~E.still /\ E.kind = "florall" => (\A i \in DOMAIN d : d[i] <= 1) /\ (E.e = 8 => \A i \in DOMAIN d : d[i] = 1) /\ (E.e = 0 => \A i \in DOMAIN d : d[i] = 0))
TFlor == IsOp("flor") /\ TRUE = FlorOk /\ UNCHANGED vars
TReach == IsOp("reach") /\ TRUE = (\A i \in DOMAIN E.c : Near(E.c[i], E.n, 1, Len(E.c))) /\ UNCHANGED vars
TRate == IsOp("rate") /\ TRUE = Near(E.c, E.n, E.e, 8) /\ UNCHANGED vars
\* a random length below the upper limit, every atom initialised once, old contents gone
TInit == IsOp("init") /\ TRUE = (Len(E.r) \in E.lo..(E.hi - 1) /\ E.calls = Len(E.r) /\ IsPermOf([i \in 1..E.calls |-> i], E.r) /\ E.inv) /\ UNCHANGED vars
TraceInit == l = 1 /\ n0 = 0
TraceNext == TShare \/ TTake \/ TAdd \/ TDel \/ TInner \/ TFlor \/ TReach \/ TRate \/ TInit
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
