----------------------------- MODULE T_Control ------------------------------
EXTENDS Control, TraceBase
VARIABLES c, ss, n0, live, hist
\* n0: how often each observer was called so far; hist: statistics history
vars == <<c, ss, n0, live, hist>>
Obs0 == [inits |-> 0, calls |-> 0, stats |-> 0, lasts |-> 0, since |-> 0]
TNew == IsOp("new") /\ c' = E /\ ss' = <<>> /\ n0' = Obs0 /\ live' = FALSE /\ hist' = [best |-> {}, kept |-> {}, cnt |-> 0, start |-> 0]
Seen == [f |-> E.f, full |-> E.full, nb |-> E.nb, val |-> E.val, best |-> E.best, dir |-> c.dir]
Kids == IF c.form = "single" THEN <<c.kids[1]>> ELSE c.kids
\* the reported counters
Vals(s, w) == \A i \in DOMAIN Kids : i \in DOMAIN E.vals => (E.vals[i] = -1 \/ E.vals[i] = (IF Kids[i].k \in {"iter", "noimpr"} THEN s[i].cpt ELSE Counted(Kids[i], w) - s[i].start))
\* observers: [st0 inits, calls, lasts, st1 .., upd calls, lasts, moupd inits, calls, lasts, mon0 calls, lasts, mon1 .., saver calls, lasts, seen]
ObsOk(o) == c.form = "check" =>
  /\ E.obs[1] = o.inits /\ E.obs[2] = o.stats /\ E.obs[3] = o.lasts /\ E.obs[4] = o.inits /\ E.obs[5] = o.stats /\ E.obs[6] = o.lasts
  /\ E.obs[7] = o.calls /\ E.obs[8] = o.lasts /\ E.obs[9] = o.inits /\ E.obs[10] = o.calls /\ E.obs[11] = o.lasts
  /\ E.obs[12] = o.calls + o.inits /\ E.obs[13] = o.lasts /\ E.obs[14] = o.calls + o.inits /\ E.obs[15] = o.lasts
  /\ E.obs[16] = ((o.calls + c.every) - 1) \div c.every /\ E.obs[17] = o.lasts
\* a monitor sees the values of this very call
Fresh(o) == c.form = "check" => E.obs[18] = StatCalls(o.since, c.interval) * 1000 + o.calls
TCInit == /\ IsOp("cinit") /\ ~(c.kind = "drive" /\ live)
          /\ ss' = AllInit(Kids, Seen) /\ n0' = [n0 EXCEPT !.inits = @ + 1, !.since = 0] /\ Vals(ss', Seen) /\ ObsOk(n0') /\ live' = TRUE /\ UNCHANGED <<c, hist>>
TCCall == /\ IsOp("ccall") /\ (c.kind = "drive" => live)
          /\ ss' = AllStep(Kids, ss, Seen) /\ E.res = AllGo(Kids, ss', Seen) /\ Vals(ss', Seen)
          /\ n0' = [n0 EXCEPT !.calls = @ + 1, !.since = @ + 1, !.stats = @ + (IF (n0.since + 1) % c.interval = 0 THEN 1 ELSE 0)] /\ ObsOk(n0') /\ Fresh(n0')
          /\ live' = E.res /\ UNCHANGED <<c, hist>>
TCLast == IsOp("clast") /\ n0' = [n0 EXCEPT !.lasts = @ + 1] /\ ObsOk(n0') /\ UNCHANGED <<c, ss, live, hist>>
\* the search ended when, and only when, its criteria said so
TDriven == IsOp("driven") /\ ~live /\ UNCHANGED vars
TTime == IsOp("time") /\ E.res = (E.d < E.m) /\ UNCHANGED vars
(* ---- statistics *)
Argmax(S) == ArgBest(c.tab, S, c.dir)
TStat == /\ IsOp("stat")
         /\ LET x == E.x f == Fit(c.tab, x) nf == NeighFits(c.tab, x, c.n) any == hist.best # {}
                kept == (IF E.first THEN (IF E.re \/ ~any THEN {x} ELSE hist.kept) ELSE hist.kept \cup {x})
                best == (IF E.first THEN {x} ELSE hist.best \cup {x})
                cnt == (IF E.first THEN 0 ELSE hist.cnt + 1)
                start == (IF E.first THEN (IF E.rs THEN E.v ELSE 0) ELSE hist.start) IN
            /\ hist' = [best |-> best, kept |-> kept, cnt |-> cnt, start |-> start]
            /\ E.bo = E.b /\ E.us = E.u /\ E.vs = E.v - start
            /\ E.bf = BestFit(c.tab, kept, c.dir) /\ TRUE = (E.bs \in Argmax(kept)) /\ E.bsf = Fit(c.tab, E.bs)
            /\ E.bfd = BestFit(c.tab, best, c.dir) /\ TRUE = (E.bsd \in Argmax(best))
            /\ E.cs = cnt /\ E.sf = cnt /\ E.mc = MaxOf(cnt - 1, 0)
            /\ E.fs = f /\ E.ss = x /\ E.ds = Dist(x, E.ref, c.n)
            /\ E.has = TRUE /\ IsMean(E.av, nf) /\ IsMean(E.sma, nf) /\ IsSd(E.sd, nf) /\ IsSd(E.smb, nf)
            /\ E.ma = BestFit(c.tab, Around(x, Moves(c.n)), c.dir) /\ E.mi = WorstFit(c.tab, Around(x, Moves(c.n)), c.dir)
            /\ E.q1 = Quart(nf, 1) /\ E.me = Quart(nf, 2) /\ E.q3 = Quart(nf, 3) /\ E.qa = E.q1 /\ E.qb = E.q3
            /\ E.sz = c.n /\ E.ni = NbInf(c.tab, x, c.n, c.dir) /\ E.nu = NbSup(c.tab, x, c.n, c.dir) /\ E.nd = NbEq(c.tab, x, c.n)
            /\ (IF E.k = 0 THEN E.nb = E.ma ELSE IF E.ordered THEN E.nb = BestFit(c.tab, Around(x, 0..(E.k - 1)), c.dir) ELSE TRUE = (E.nb \in ToSet(nf)))
            /\ TRUE = (E.nf \in ToSet(nf))
         /\ UNCHANGED <<c, ss, n0, live>>
(* ---- samplings: one row per visited solution *)
Col(i) == E.cols[i]
Rows(k) == \A i \in DOMAIN E.xs : Col(k)[i] = 1000 * Fit(c.tab, E.xs[i])
Same(k) == Len(Col(k)) = Len(E.xs)
Ix2 == {i \in DOMAIN E.xs : i > 1}
Neutral == \A i \in Ix2 : E.fs[i] = E.fs[i - 1] /\ (E.xs[i] = E.xs[i - 1] \/ IsNeighbour(E.xs[i - 1], E.xs[i], c.n))
\* neighbourhood columns from column k on: avg sd min q1 med q3 max size inf equal sup
NbCols(k) == /\ \A j \in k..(k + 10) : Same(j)
             /\ \A i \in DOMAIN E.xs : LET x == E.xs[i] nf == NeighFits(c.tab, x, c.n) IN
                /\ IsMean(Col(k)[i], nf) /\ IsSd((Col(k + 1)[i] + 5) \div 10, nf)
                /\ Col(k + 2)[i] = 1000 * WorstFit(c.tab, Around(x, Moves(c.n)), c.dir) /\ Col(k + 6)[i] = 1000 * BestFit(c.tab, Around(x, Moves(c.n)), c.dir)
                /\ Col(k + 3)[i] = 1000 * Quart(nf, 1) /\ Col(k + 4)[i] = 1000 * Quart(nf, 2) /\ Col(k + 5)[i] = 1000 * Quart(nf, 3)
                /\ Col(k + 7)[i] = 1000 * c.n /\ Col(k + 8)[i] = 1000 * NbInf(c.tab, x, c.n, c.dir) /\ Col(k + 9)[i] = 1000 * NbEq(c.tab, x, c.n) /\ Col(k + 10)[i] = 1000 * NbSup(c.tab, x, c.n, c.dir)
Made == E.made = E.xs /\ Len(E.xs) = E.num
SampleOk ==
  CASE E.kind = "dos" -> Same(1) /\ Rows(1) /\ Made
    [] E.kind = "walk" -> Same(1) /\ Rows(1) /\ Len(E.xs) = E.num + 1 /\ (\A i \in Ix2 : IsNeighbour(E.xs[i - 1], E.xs[i], c.n))
    [] E.kind = "fdc" -> Same(1) /\ Same(2) /\ Rows(1) /\ Made /\ (\A i \in DOMAIN E.xs : Col(2)[i] = 1000 * Dist(E.xs[i], E.ref, c.n))
    [] E.kind = "ndeg" -> Same(1) /\ Same(2) /\ Rows(1) /\ Made /\ (\A i \in DOMAIN E.xs : Col(2)[i] = 1000 * NbEq(c.tab, E.xs[i], c.n))
    [] E.kind = "nwalk1" -> E.sols = E.xs /\ E.xs[1] = E.ref /\ Neutral /\ Same(2) /\ (\A i \in DOMAIN E.xs : Col(2)[i] = 1000 * Dist(E.xs[i], E.ref, c.n)) /\ NbCols(3)
    [] E.kind = "nwalk2" -> E.sols = E.xs /\ E.made = <<E.xs[1]>> /\ Neutral /\ NbCols(2)
    [] E.kind = "hc" -> E.sols = E.xs /\ Len(E.xs) = E.num /\ Len(E.made) = E.num /\ Same(1) /\ (\A i \in DOMAIN E.xs : <<E.xs[i], Col(1)[i] \div 1000>> \in SteepLens(c.tab, E.made[i], c.n, c.dir) /\ Col(1)[i] % 1000 = 0)
    [] E.kind = "adapt" -> E.sols = E.xs /\ Len(E.xs) = E.num /\ Len(E.made) = E.num /\ Same(1) /\ Same(2) /\ (\A i \in DOMAIN E.xs : <<E.xs[i], Col(1)[i] \div 1000>> \in ClimbLens(c.tab, E.made[i], c.n, c.dir) /\ Col(2)[i] >= 1000 * c.n + Col(1)[i] /\ Col(2)[i] <= 1000 * c.n + Col(1)[i] * c.n)
    [] E.kind = "rbest" -> Same(1) /\ Same(2) /\ Rows(1) /\ Made /\ (\A i \in DOMAIN E.xs : Col(2)[i] = 1000 * BestFit(c.tab, Around(E.xs[i], Moves(c.n)), c.dir))
    [] E.kind = "rrnd" -> Same(1) /\ Same(2) /\ Rows(1) /\ Made /\ (\A i \in DOMAIN E.xs : \E y \in Around(E.xs[i], Moves(c.n)) : Col(2)[i] = 1000 * Fit(c.tab, y))
    [] E.kind = "mhbest" -> Same(1) /\ Same(2) /\ Rows(1) /\ (\A i \in DOMAIN E.xs : Col(2)[i] = 1000 * BestFit(c.tab, Around(E.xs[i], Moves(c.n)), c.dir)) /\ (\A i \in Ix2 : E.xs[i] = E.xs[i - 1] \/ IsNeighbour(E.xs[i - 1], E.xs[i], c.n))
    [] E.kind = "mhrnd" -> Same(1) /\ Same(2) /\ Rows(1) /\ (\A i \in DOMAIN E.xs : \E y \in Around(E.xs[i], Moves(c.n)) : Col(2)[i] = 1000 * Fit(c.tab, y)) /\ (\A i \in Ix2 : E.xs[i] = E.xs[i - 1] \/ IsNeighbour(E.xs[i - 1], E.xs[i], c.n))
TSample == IsOp("sample") /\ Len(E.xs) >= 2 /\ (\A i \in DOMAIN E.xs : E.fs[i] = Fit(c.tab, E.xs[i])) /\ TRUE = SampleOk /\ UNCHANGED vars
TExport == IsOp("export") /\ Len(E.mem) = Len(E.back) /\ (\A i \in DOMAIN E.mem : Abs(E.mem[i] - E.back[i]) <= 1) /\ UNCHANGED vars
(* ---- series *)
MinS(s) == CHOOSE v \in ToSet(s) : \A i \in DOMAIN s : v <= s[i]
MaxS(s) == CHOOSE v \in ToSet(s) : \A i \in DOMAIN s : v >= s[i]
TBasic == /\ IsOp("basic")
          /\ (IF E.d = <<>> THEN E.mi = 0 /\ E.ma = 0 /\ E.av = 0 /\ E.sd = 0 ELSE E.mi = MinS(E.d) /\ E.ma = MaxS(E.d) /\ IsMean(E.av, E.d) /\ IsPopSd(E.sd, E.d))
          /\ UNCHANGED vars
Sound(k) == LET g == Lag(E.d, k) IN g.va > 0 /\ g.vb > 0
TAcf == /\ IsOp("acf") /\ Len(E.rho) = E.lag + 1 /\ Len(E.phi) = E.lag + 1 /\ E.rho[1] = 100 /\ E.phi[1] = 1000
        /\ \A k \in 1..E.lag : Sound(k) => IsCorr(E.rho[k + 1], Lag(E.d, k))
        /\ (Sound(1) => E.phi[2] = E.rhom[2])
        /\ ((E.lag >= 2 /\ Sound(1) /\ Sound(2)) => LET r1 == E.rhom[2] r2 == E.rhom[3] p == E.phi[3] IN (Abs(p) <= 2000 /\ r1 * r1 <= 500000) => Abs(p * ((1000000 - r1 * r1) \div 1000) - (1000 * r2 - r1 * r1)) <= 8000)
        /\ UNCHANGED vars
TDists == IsOp("dists") /\ Len(E.m) = Len(E.xs) /\ (\A i \in DOMAIN E.xs : Len(E.m[i]) = Len(E.xs) /\ \A j \in DOMAIN E.xs : E.m[i][j] = Dist(E.xs[i], E.xs[j], 4)) /\ UNCHANGED vars
TraceInit == l = 1 /\ c = <<>> /\ ss = <<>> /\ n0 = Obs0 /\ live = FALSE /\ hist = [best |-> {}, kept |-> {}, cnt |-> 0, start |-> 0]
TraceNext == TNew \/ TCInit \/ TCCall \/ TCLast \/ TDriven \/ TTime \/ TStat \/ TSample \/ TExport \/ TBasic \/ TAcf \/ TDists
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
