---------------------------- MODULE T_Configured ----------------------------
EXTENDS Configured, TraceBase
VARIABLE n0
vars == <<n0>>
D == E.dir
P == E.pop
N == Len(P)
Pass(o, k) == SubSeq(o, (k - 1) * N + 1, MinOf(k * N, Len(o)))
PickOk == /\ E.bad = 0 /\ E.n = E.K /\ SumSeq(E.c) = E.K
  /\ (IF E.kind \in {"ordered", "unordered", "elite"} THEN
        /\ \A k \in 1..3 : LET o == Pass(E.out, k) IN NoDup(o)
             /\ (E.kind = "ordered" => [i \in DOMAIN o |-> P[o[i]][2]] = Ranked(P, D))
             /\ (E.kind = "elite" => P[o[1]][2] = BestOf(P, D))
        /\ \A i \in 1..N : Abs(E.c[i] * N - E.K) <= N
      ELSE LET W == Weights(E.kind, E.a, P, D) S == SumSeq(W) IN
        \A i \in 1..N : Near(E.c[i], E.K, W[i], S) /\ (W[i] = 0 => E.c[i] <= 1))
TPick == IsOp("pick") /\ TRUE = PickOk /\ UNCHANGED vars
R == E.res
All == E.par \o E.off
Keeps(fs) == Ranked(R, D) = fs
ReplOk == LET par == E.par off == E.off a == E.a n == Len(par) IN
  /\ Len(off) = HowMany(E.h8, E.hc, n) /\ Len(R) = n /\ FromPop(R, All)
  /\ CASE E.kind \in {"comma", "plus", "ssworse", "g3", "mgg"} -> Keeps(WithElite(E.weak, par, KeptBy(E.kind, a, par, off, D), D))
       [] E.kind = "ssga" -> /\ Cardinality({i \in DOMAIN R : R[i][1] >= 100}) = 1 /\ BestOf(off, D) \in ToSet(Fits(R))
                             /\ (a[1] = 1 => Keeps(KeptBy(E.kind, a, par, off, D)))
       [] E.kind = "ssany" -> IF E.weak THEN ~PBetter(BestOf(par, D), BestOf(R, D), D) ELSE FromPop(off, R)
       [] E.kind = "general" -> LET e == a[1] exact == a[4] = 1 strong == a[5] = 1 IN
            /\ (e > 0 => ~PBetter(BestOf(par, D), BestOf(R, D), D))
            /\ (strong => MultiIn(Take(Ranked(par, D), e), Fits(R)))
            /\ ((exact /\ (strong \/ e = 0)) => Keeps(KeptBy(E.kind, a, par, off, D)))
            /\ (e = 0 => Cardinality({i \in DOMAIN R : R[i][1] < 100}) <= a[2] /\ Cardinality({i \in DOMAIN R : R[i][1] >= 100}) <= a[3])
TRepl == IsOp("repl") /\ TRUE = ReplOk /\ UNCHANGED vars
OutOk == /\ E.bad = 0 /\ SumSeq(E.c) = E.K
  /\ \A i \in 1..N : LET v == P[i][2] w == NotBetter(P, v, 1 - D) z == Worse(P, v, 1 - D) IN
       IF E.kind = "outdet" THEN Near(E.c[i], E.K, (w * (w - 1)) - (z * (z - 1)), N * (N - 1)) ELSE Near(E.c[i], E.K, StochWins(P, E.a, v, 1 - D), 8 * N * N)
TOut == IsOp("pushout") /\ TRUE = OutOk /\ UNCHANGED vars
StopOk == IF E.none THEN E.threw ELSE ~E.threw /\ StopsExactly(E.crit, E.best, E.n, E.m, D) /\ E.evals = E.n + Len(E.best) * E.m
TStop == IsOp("stop") /\ TRUE = StopOk /\ UNCHANGED vars
TRefuse == IsOp("refuse") /\ TRUE = E.threw /\ UNCHANGED vars
Kids == E.kids
Count(S) == Cardinality(S)
KI == DOMAIN Kids
Mixed == Count({k \in KI : Changes(Kids[k]) > 0})
Zero == Count({k \in KI : Ones(Kids[k]) = 0})
BitsOk == /\ Len(Kids) = E.K /\ E.fit /\ \A k \in KI : Len(Kids[k]) = E.L
  /\ CASE E.kind = "none" -> \A k \in KI : Changes(Kids[k]) = 0
       [] E.kind = "onept" -> (\A k \in KI : Changes(Kids[k]) <= 1) /\ Near(Mixed \div 2, E.K \div 2, E.a, 16)
       [] E.kind = "twopt" -> (\A k \in KI : Changes(Kids[k]) <= 2) /\ (\E k \in KI : Changes(Kids[k]) = 2) /\ Near(Mixed \div 2, E.K \div 2, E.a, 16)
       [] E.kind = "unif" -> (\E k \in KI : Changes(Kids[k]) > 2) /\ Near(Mixed \div 2, E.K \div 2, E.a, 16)
       [] E.kind = "flip" -> Near(SumSeq([k \in KI |-> Ones(Kids[k])]), E.K * E.L, E.a, 8)
       [] E.kind = "onebit" -> (\A k \in KI : Ones(Kids[k]) <= 1) /\ Near(E.K - Zero, E.K, E.a, 8) /\ (E.a = 8 => Zero = 0) /\ (E.a = 0 => Zero = E.K)
       [] E.kind = "kbit" -> (\A k \in KI : Ones(Kids[k]) <= E.a /\ (E.a - Ones(Kids[k])) % 2 = 0) /\ (\E k \in KI : Ones(Kids[k]) = E.a)
       [] E.kind = "mixmut" -> (\A k \in KI : Ones(Kids[k]) <= 2) /\ Near(Count({k \in KI : Ones(Kids[k]) = 1}), E.K, E.a, 8)
TBits == IsOp("bits") /\ TRUE = BitsOk /\ UNCHANGED vars
Inner(k) == \E j \in 1..E.L : Kids[k][j] \notin {0, E.lim}
Touched == Count({k \in KI : E.ch[k] > 0})
Within == \A k \in KI : \A j \in 1..E.L : Kids[k][j] >= 0 /\ Kids[k][j] <= E.lim
RealsOk == /\ Len(Kids) = E.K /\ E.fit /\ E.inb /\ \A k \in KI : Len(Kids[k]) = E.L
  /\ CASE E.kind = "rnone" -> \A k \in KI : Changes(Kids[k]) = 0 /\ ~Inner(k)
       [] E.kind = "segment" -> Within /\ (\A k \in KI : Changes(Kids[k]) = 0) /\ (\E k \in KI : Inner(k)) /\ Near(Count({k \in KI : Inner(k)}) \div 2, E.K \div 2, E.a, 16)
       [] E.kind = "cube" -> Within /\ (\E k \in KI : Inner(k) /\ Changes(Kids[k]) > 0)
       [] E.kind = "ux" -> (\A k \in KI : ~Inner(k)) /\ (\E k \in KI : Changes(Kids[k]) > 0)
       [] E.kind \in {"runiform", "rnormal"} -> (\A k \in KI : E.ch[k] \in {0, E.L}) /\ Near(Touched, E.K, E.a, 8) /\ (E.a = 8 => Touched = E.K) /\ (E.a = 0 => Touched = 0)
       [] E.kind = "rdet" -> (\A k \in KI : E.ch[k] <= 1) /\ Near(Touched, E.K, E.a, 8)
       [] E.kind = "rpnormal" -> Near(SumSeq(E.ch), E.K * E.L, E.a, 8)
       [] E.kind = "nocross" -> \A k \in KI : E.ch[k] = 1
       [] E.kind = "nomut" -> \A k \in KI : ~Inner(k)
TReals == IsOp("reals") /\ TRUE = RealsOk /\ UNCHANGED vars
TGeno == IsOp("geno") /\ TRUE = (E.n = E.L) /\ UNCHANGED vars
Old(p) == SelectSeq(p, LAMBDA x : x[1] < 1000)
InvF == -1000000001
PopOk == IF E.kind = "seeded" THEN Len(E.x) = E.n /\ E.x = E.y /\ E.z = E.n + 3 /\ E.d
  ELSE LET had == Len(E.pop) kept == Old(R) k == MinOf(had, E.n) IN
    /\ Len(R) = E.n /\ Len(kept) = k /\ \A i \in DOMAIN R : (R[i][1] >= 1000 => R[i][2] = InvF)
    /\ LET was == [i \in DOMAIN kept |-> E.pop[CHOOSE j \in DOMAIN E.pop : E.pop[j][1] = kept[i][1]]] IN
         /\ NoDup([i \in DOMAIN kept |-> kept[i][1]]) /\ Ranked(was, D) = Take(Ranked(E.pop, D), k)
         /\ \A i \in DOMAIN kept : IF E.kind = "reload" THEN kept[i][2] = InvF ELSE kept[i] = was[i]
TPop == IsOp("initpop") /\ TRUE = PopOk /\ UNCHANGED vars
HM(h8, hc, n) == IF hc < 0 /\ n + hc < 0 THEN -1 ELSE HowMany(h8, hc, n)
HowOk == /\ E.got = HM(E.h8, E.hc, E.n)
  /\ (E.h8 <= 8 => E.neg = HM(8 - E.h8, -E.hc, E.n))
  /\ (E.hc >= 0 => E.rd /\ E.back = E.got)
THow == IsOp("how") /\ TRUE = HowOk /\ UNCHANGED vars
TraceInit == l = 1 /\ n0 = 0
TraceNext == TPick \/ TRepl \/ TOut \/ TStop \/ TRefuse \/ TBits \/ TReals \/ TGeno \/ TPop \/ THow
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
