--------------------------- MODULE T_Replacement ----------------------------
EXTENDS Replacement, TraceBase
VARIABLE n0
vars == <<n0>>
\* the JSON individuals are sequences <<id, f>>
R == E.res
Keeps(fs) == Ranked(R, E.dir) = fs
All == E.par \o E.off
RepOk == LET par == E.par off == E.off a == E.a d == E.dir n == Len(par) m == Len(off) IN
  CASE E.kind = "plus" -> ~E.threw /\ FromPop(R, All) /\ Keeps(Plus(par, off, d))
    [] E.kind = "comma" -> (IF m < n THEN E.threw ELSE ~E.threw /\ FromPop(R, off) /\ Keeps(Comma(par, off, d)))
    [] E.kind = "gen" -> ~E.threw /\ R = off
    [] E.kind = "ep" -> ~E.threw /\ FromPop(R, All) /\ Len(R) = n
    [] E.kind \in {"ssworse", "ssdet", "ssstoch"} -> (IF m > n THEN E.threw
         ELSE /\ ~E.threw /\ FromPop(R, All) /\ Len(R) = n /\ FromPop(off, R)
              /\ (E.kind = "ssworse" => Keeps(SSWorse(par, off, d)))
              /\ ((E.kind = "ssdet" /\ m < n) => ~PBetter(BestOf(par, d), BestOf(SelectSeq(R, LAMBDA x : x[1] < 100), d), d)))
    [] E.kind = "weakgen" -> ~E.threw /\ FromPop(R, All) /\ Keeps(WeakElite(par, off, d))
    [] E.kind = "weakcomma" -> ~E.threw /\ FromPop(R, All) /\ Keeps(RankedF(WeakElite(par, [i \in 1..n |-> <<0, Comma(par, off, d)[i]>>], d), d))
    [] E.kind = "weakin" -> ~E.threw /\ FromPop(R, All) /\ Keeps(WeakElite(par, Take(off, n), d))
    [] E.kind = "weakss" -> ~E.threw /\ FromPop(R, All) /\ Keeps(RankedF(WeakElite(par, [i \in 1..n |-> <<0, SSWorse(par, off, d)[i]>>], d), d))
    [] E.kind = "mgg" -> (IF a[1] < 2 THEN E.threw
         ELSE /\ ~E.threw /\ FromPop(R, All) /\ Len(R) = n
              /\ ~PBetter(BestOf(off, d), BestOf(R, d), d)
              \* all but the worst e parents stay, the best offspring comes in
              /\ MultiIn(Take(Ranked(par, d), n - a[1]) \o <<BestOf(off, d)>>, Fits(R)))
    [] E.kind = "g3" -> ~E.threw /\ FromPop(R, All) /\ Keeps(G3(par, off, a[1], d))
    [] E.kind \in {"rmrstrong", "rmrweak"} ->
         LET e == a[1] rp == a[2] ro == a[3] strong == E.kind = "rmrstrong" pool == rp + ro need == (IF strong THEN n - e ELSE n) IN
         IF ro = 0 THEN E.threw
         ELSE IF pool < need THEN E.threw
         ELSE /\ ~E.threw /\ FromPop(R, All) /\ Len(R) = n
              /\ (e > 0 => ~PBetter(BestOf(par, d), BestOf(R, d), d))
              /\ ((a[4] = 1 /\ (strong \/ e = 0)) => Keeps(RMRStrong(par, off, e, rp, ro, d)))
              /\ (strong => MultiIn(Take(Ranked(par, d), e), Fits(R)))
    [] E.kind = "sad" -> LET sp == a[1] so == a[3] dp == MinOf(a[2], n - sp) dd == MinOf(a[4], m - so) IN
         IF sp + so > n \/ ((n - sp) - dp) + ((m - so) - dd) < (n - sp) - so THEN E.threw
         ELSE ~E.threw /\ FromPop(R, All) /\ Keeps(SaD(par, off, sp, dp, so, dd, d))
TRep == IsOp("rep") /\ TRUE = RepOk /\ UNCHANGED vars
RedOk == LET p == E.pop n == E.n d == E.dir IN
  IF n > Len(p) THEN E.threw ELSE
  /\ ~E.threw /\ FromPop(R, p) /\ Len(R) = n
  /\ (E.kind \in {"trunc", "linear"} => Keeps(Take(Ranked(p, d), n)))
  /\ ((E.kind = "det" /\ n > 0) => BestOf(R, d) = BestOf(p, d))
TRed == IsOp("red") /\ TRUE = RedOk /\ UNCHANGED vars
MrgOk == LET k == E.a[1] IN
  IF E.kind = "elite" /\ k > Len(E.pop) THEN E.threw ELSE
  /\ ~E.threw /\ E.same /\ FromPop(R, E.pop \o E.off) /\ FromPop(E.off, R)
  /\ (IF E.kind = "plus" THEN Len(R) = Len(E.pop) + Len(E.off) ELSE Keeps(Merge2(Fits(E.off), Take(Ranked(E.pop, E.dir), k), E.dir)))
MrgPlus == E.kind = "plus" /\ ~E.threw /\ E.same /\ SameMulti(R, E.pop \o E.off)
TMrg == IsOp("mrg") /\ TRUE = (IF E.kind = "plus" THEN MrgPlus ELSE MrgOk) /\ UNCHANGED vars
SplOk == LET p == E.pop k == E.k d == E.dir n == Len(p) IN
  /\ ~E.threw /\ Len(R) = n - k
  /\ (IF E.ret THEN SameMulti(R \o E.elim, p \o E.had) /\ FromPop(R, p) /\ FromPop(E.had, E.elim) ELSE FromPop(R, p) /\ E.elim = E.had)
  /\ (E.kind = "trunc" => Keeps(Take(Ranked(p, d), n - k)))
  /\ ((E.kind = "det" /\ k < n) => BestOf(R, d) = BestOf(p, d))
TSpl == IsOp("spl") /\ TRUE = SplOk /\ UNCHANGED vars
SadPart == LET P == Ranked(E.pop, E.dir) IN
  /\ FromPop(E.lucky \o R, E.pop) /\ Ranked(E.lucky, E.dir) = Take(P, E.s) /\ Ranked(R, E.dir) = Take(Drop(P, E.s), (Len(P) - E.s) - E.k)
TSad == IsOp("sadpart") /\ TRUE = SadPart /\ UNCHANGED vars
\* survival counts over K runs, individual 5 best ... 0 worst; wide margins
RateOk == /\ SumSeq(E.c) = E.K * E.keep
          /\ (IF E.kind = "rndrate" THEN \A i \in 1..6 : E.c[i] * 10 > E.K * 3 /\ E.c[i] * 10 < E.K * 7 ELSE IF E.kind = "eprate" THEN E.c[6] * 10 > E.K * 7 /\ E.c[1] * 10 < E.K * 3 ELSE (E.c[6] - E.c[1]) * 100 > E.K * 8)
          /\ (E.kind = "detrate" => E.c[6] = E.K)
TRate == IsOp("rate") /\ TRUE = RateOk /\ UNCHANGED vars
TraceInit == l = 1 /\ n0 = 0
TraceNext == TRep \/ TRed \/ TMrg \/ TSpl \/ TSad \/ TRate
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
