---------------------------- MODULE T_Selection -----------------------------
EXTENDS Selection, TraceBase
VARIABLE n0
vars == <<n0>>
P == E.pop
D == E.dir
N == Len(P)
Members(o) == \A i \in DOMAIN o : o[i] \in 1..N
Approx(v, k, num, den) == /\ (v - 1) * den <= k * num /\ (v + 1) * den >= k * num
PassesOf(o) == 1..((Len(o) + N - 1) \div N)
Pass(o, k) == SubSeq(o, (k - 1) * N + 1, MinOf(k * N, Len(o)))
Total == SumSeq(Fits(P))
PassOk == /\ E.same /\ Members(E.out)
  /\ CASE E.kind \in {"seq", "shuf", "elite", "round"} ->
          \A k \in PassesOf(E.out) : LET o == Pass(E.out, k) IN
            /\ NoDup(o)
            /\ (E.kind = "seq" => [i \in DOMAIN o |-> P[o[i]][2]] = Take(Ranked(P, D), Len(o)))
            /\ (E.kind = "elite" => P[o[1]][2] = BestOf(P, D))
            /\ (E.kind = "round" => o = [i \in DOMAIN o |-> i])
       [] E.kind = "sus" -> \A k \in 1..(Len(E.out) \div N) : \A i \in 1..N : LET c == CountIn(i, Pass(E.out, k)) IN
            c * Total >= (N * P[i][2]) - (Total - 1) /\ c * Total <= (N * P[i][2]) + (Total - 1)
TPass == IsOp("pass") /\ TRUE = PassOk /\ UNCHANGED vars
OneOk == /\ E.same /\ Members(E.out)
  /\ (E.kind = "best" => \A i \in DOMAIN E.out : P[E.out[i]][2] = BestOf(P, D))
  /\ (E.kind = "positive" => \A i \in DOMAIN E.out : P[E.out[i]][2] > 0)
TOne == IsOp("one") /\ TRUE = OneOk /\ UNCHANGED vars
TExt == IsOp("ext") /\ TRUE = (E.same /\ Members(E.out)) /\ UNCHANGED vars
\* draws that gave fitness v
Got(v) == SumFun([i \in 1..N |-> E.c[i]], {i \in 1..N : P[i][2] = v})
FreqOk == /\ E.same /\ E.bad = 0 /\ SumSeq(E.c) = E.K
  /\ CASE E.kind = "det" -> \A v \in ToSet(Fits(P)) : Near(Got(v), E.K, TourWins(P, E.a, v, D), Pow(N, E.a))
       [] E.kind = "stoch" -> \A v \in ToSet(Fits(P)) : Near(Got(v), E.K, StochWins(P, E.a, v, D), 8 * N * N)
       [] E.kind = "invstoch" -> \A v \in ToSet(Fits(P)) : Near(Got(v), E.K, StochWins(P, E.a, v, 1 - D), 8 * N * N)
       \* two distinct contestants, the worse one is returned
       [] E.kind = "invdet" -> \A v \in ToSet(Fits(P)) : LET w == NotBetter(P, v, 1 - D) z == Worse(P, v, 1 - D) IN Near(Got(v), E.K, (w * (w - 1)) - (z * (z - 1)), N * (N - 1))
       [] E.kind = "uniform" -> \A i \in 1..N : Near(E.c[i], E.K, 1, N)
       [] E.kind = "prop" -> \A i \in 1..N : Near(E.c[i], E.K, P[i][2], Total) /\ (P[i][2] = 0 => E.c[i] <= 1)
       [] E.kind = "worth" -> \A i \in 1..N : Near(E.c[i], E.K, E.w[i], SumSeq(E.w)) /\ (E.w[i] = 0 => E.c[i] <= 3)
TFreq == IsOp("freq") /\ TRUE = FreqOk /\ UNCHANGED vars
Desc(s) == SortSeq(s, >)
RankOk == LET p8 == E.a[1] w == Desc(E.w) IN
  /\ \A i \in 1..N : IF E.a[2] = 1 THEN Approx(w[i], 1000000, RankNum(N, i, p8), 8 * N * (N - 1))
       ELSE Approx(w[i], 1000000, ((2 * p8 - 16) * (N + 1 - i) * (N + 1 - i)) + ((16 - p8) * N * N), 8 * N * N * N)
  /\ \A i, j \in 1..N : PBetter(P[i][2], P[j][2], D) => E.w[i] > E.w[j]
ScaleOk == LET p8 == E.a[1] S == Total b == BestOf(P, D) B == (N * b) - S IN
  \A i \in 1..N : IF B = 0 THEN Approx(E.w[i], 1000000, 1, N)
    ELSE LET num == ((p8 - 8) * P[i][2] * N) + (8 * b * N) - (p8 * S) sg == (IF B < 0 THEN -1 ELSE 1) IN
         IF sg * num <= 0 THEN E.w[i] \in {0, 1} ELSE Abs(E.w[i] - ((((sg * num * 10000) \div (sg * B)) * 100) \div (8 * N))) <= 30
ShareOk == LET sg == E.a[1] IN \A i \in 1..N : LET den == SumSeq([j \in 1..N |-> MaxOf(0, sg - Abs(P[i][1] - P[j][1]))]) IN Approx(E.w[i], 1000000, P[i][2] * sg, den)
TWorth == IsOp("worth") /\ TRUE = (E.same /\ Len(E.w) = N /\ CASE E.kind = "rank" -> RankOk [] E.kind = "scale" -> ScaleOk [] E.kind = "share" -> ShareOk) /\ UNCHANGED vars
\* sorting by worth keeps individuals and worths together
TWSort == IsOp("wsort") /\ TRUE = (E.w2 = Desc(E.w) /\ SameMulti([i \in 1..N |-> <<P[i], E.w[i]>>], [i \in 1..N |-> <<E.res[i], E.w2[i]>>])) /\ UNCHANGED vars
TWRes == IsOp("wresize") /\ TRUE = (E.n = E.m /\ E.w = E.m) /\ UNCHANGED vars
R == E.res
ManyOk == /\ E.same /\ Len(R) = E.target /\ ToSet(R) \subseteq ToSet(P)
  /\ CASE E.kind = "many" -> (E.a[1] = 0 => Fits(R) = Fill(Ranked(P, D), Len(R))) /\ (E.a[1] = 3 => Fits(R) = <<BestOf(P, D)>>)
       [] E.kind = "trunc" -> LET k == E.a[1] RF == Ranked(P, D) IN
            \* only the k best are fertile; when cycling through them in order, all k come
            /\ \A i \in DOMAIN R : ~PBetter(RF[k], R[i][2], D)
            /\ (E.a[2] = 0 => Fits(R) = Fill(Take(RF, k), Len(R)))
       [] E.kind = "fill" -> R = Fill(P, Len(R))
       [] E.kind = "rankmu" -> Fits(R) = Fill(Ranked(P, D), Len(R)) /\ (Len(R) <= N => FromPop(R, P))
TMany == IsOp("many") /\ TRUE = ManyOk /\ UNCHANGED vars
TRefuse == IsOp("refuse") /\ E.threw /\ UNCHANGED vars
TSum == IsOp("sumfit") /\ TRUE = (E.v = Total /\ E.v2 = Total) /\ UNCHANGED vars
TScaled == IsOp("sumscaled") /\ TRUE = (LET w == WorstOf(P, D) b == BestOf(P, D) IN E.lo = w /\ E.hi = b /\ (IF w = b THEN E.v = 0 ELSE Approx(E.v, 1000, Abs(Total - (N * w)), Abs(b - w)))) /\ UNCHANGED vars
TMin == IsOp("minim") /\ TRUE = (E.v = (E.dir = 1)) /\ UNCHANGED vars
TraceInit == l = 1 /\ n0 = 0
TraceNext == TPass \/ TOne \/ TExt \/ TFreq \/ TWorth \/ TWSort \/ TWRes \/ TMany \/ TRefuse \/ TSum \/ TScaled \/ TMin
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
