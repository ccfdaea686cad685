---------------------------- MODULE T_Adaptation ----------------------------
EXTENDS Adaptation, TraceBase
VARIABLE wts          \* recombination weights seen so far, by number of parents
vars == <<wts>>
LastOf(s, i) == IF i <= Len(s) THEN s[i] ELSE s[Len(s)]
TParams == IsOp("params") /\ UNCHANGED vars /\ TRUE = (
  /\ E.pn = E.n
  /\ E.lambda >= 2 /\ (E.al >= 2 => E.lambda = E.al)
  /\ (IF E.am < 0 THEN E.mu < E.lambda ELSE E.mu = (IF E.am >= E.lambda THEN E.lambda \div 2 ELSE E.am))
  /\ Weights(E.w, 10000, E.mu)
  /\ (E.kind = "equal" => EqualWeights(E.w)) /\ (E.kind = "linear" => LinearWeights(E.w)) /\ (E.kind = "log" => ConvexWeights(E.w))
  /\ Close(E.mueff * (SumSeq([i \in DOMAIN E.w3 |-> E.w3[i] * E.w3[i]]) \div 1000), 1000000, 30000)
  /\ (\A i \in DOMAIN E.rates : E.rates[i] > 0 /\ E.rates[i] <= 1000000) /\ E.damp >= 1000
  /\ E.gi = [i \in 1..E.n |-> LastOf(E.inits, i)] /\ E.gm = [i \in 1..E.n |-> LastOf(E.mins, i)])
TDefaults == IsOp("defaults") /\ UNCHANGED vars /\ TRUE = CloseVec(E.got, E.want, 1)
Plus(b, t) == [i \in DOMAIN b |-> [j \in DOMAIN b[i] |-> b[i][j] + t[j]]]
Twice(b) == [i \in DOMAIN b |-> [j \in DOMAIN b[i] |-> 2 * b[i][j]]]
\* equal ranks, equal offspring; moved and stretched parents, moved and stretched offspring
TBreed == IsOp("breed") /\ UNCHANGED vars /\ TRUE = (
  /\ E.clean /\ Len(E.base) = E.lambda
  /\ CloseMat(E.base, E.shuffled, 1) /\ CloseMat(E.base, E.rescaled, 1) /\ CloseMat(E.base, E.copied, 1)
  /\ CloseMat(Twice(E.base), E.doubled, 3) /\ CloseMat(Plus(E.base, E.by), E.moved, 3))
\* 3000 samples: seven standard errors
Near(avg, want, sd) == Abs(avg - want) <= (7 * sd) \div 54 + 3
TFirst == IsOp("first") /\ UNCHANGED vars /\ TRUE = (
  /\ E.inv /\ (\A j \in DOMAIN E.m : Near(E.avg[j], E.m[j], E.sd[j]))
  /\ (\A i, j \in DOMAIN E.m : LET a == E.sd[i] * E.inits[j] b == E.sd[j] * E.inits[i] IN 10 * a <= 12 * b /\ 10 * b <= 12 * a))
TCentre == IsOp("centre") /\ UNCHANGED vars
  /\ TRUE = (\A j \in DOMAIN E.avg : Near(E.avg[j], Recombined(E.w, E.ranked, j) \div 10, E.sd[j]))
TTrend == IsOp("trend") /\ UNCHANGED vars /\ TRUE = (
  CASE E.kind = "far" -> \A j \in DOMAIN E.after : 10 * E.after[j] > 15 * E.before[j]
    [] E.kind = "near" -> \A j \in DOMAIN E.after : 10 * E.after[j] < 8 * E.before[j]
    [] E.kind = "axis" -> 10 * E.after[E.ax] > 15 * E.after[3 - E.ax])
TProbe == IsOp("probe") /\ TRUE = (Weights(E.w, 100000, E.k) /\ ConvexWeights(E.w)) /\ wts' = [wts EXCEPT ![E.k] = E.w]
TLearn == IsOp("learn") /\ UNCHANGED vars /\ TRUE = (
  /\ (wts[E.k] # <<>> => \A j \in 1..E.n : Close(E.mean[j], Recombined(wts[E.k], E.pop, j), 200 * E.k)) /\ E.ret = E.mean
  /\ E.sym /\ E.psd /\ E.ortho /\ E.same /\ StepRule(E.path, E.grow)
  /\ CloseVec(E.mm, E.m4, 3) /\ CloseVec(E.m2, E.m4, 3) /\ CloseVec(E.mt, E.m4, 3)
  /\ CloseMat(E.Cm, E.C, 3) /\ CloseMat(E.C2, E.C, 3) /\ CloseMat(E.Ct, E.C, 3)
  /\ (\E h \in BOOLEAN : (E.len < E.lim - 3 => h) /\ (E.len > E.lim + 3 => ~h) /\ PathRule(E.pc, E.keep, E.move, h) /\ Learned(E.C, E.C0, E.one, E.mix, E.c1, E.cmu, E.cor, h))
  /\ CloseVec(E.ps, E.wps, 3)
  /\ Close(E.sm, E.sigma, 3) /\ Close(E.s2, E.sigma, 3) /\ Close(E.st, E.sigma, 3))
THistory == IsOp("history") /\ UNCHANGED vars /\ TRUE = (\A j \in 1..2 : Near(E.off[j], 0, E.sd[j]) /\ Abs(E.sd[j] - E.want[j]) * 100 <= 11 * E.want[j] + 200 /\ Abs(E.corr - E.wcorr) <= 130)
TAxis == IsOp("axis") /\ UNCHANGED vars /\ TRUE = (2 * E.along > 3 * E.across)
\* a reset distribution adapts like a new one
TAgain == IsOp("again") /\ UNCHANGED vars /\ TRUE = (CloseVec(E.ma, E.mb, 1) /\ CloseVec(E.sa, E.sb, 1) /\ Close(E.ga, E.gb, 1))
TraceInit == l = 1 /\ wts = [k \in 1..6 |-> <<>>]
TraceNext == TParams \/ TDefaults \/ TBreed \/ TFirst \/ TCentre \/ TTrend \/ TProbe \/ TLearn \/ TAxis \/ THistory \/ TAgain
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
