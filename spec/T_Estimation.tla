---------------------------- MODULE T_Estimation ----------------------------
EXTENDS Estimation, TraceBase
VARIABLE n0
vars == <<n0>>
Ok(b) == TRUE = b /\ UNCHANGED vars
TEst == IsOp("est") /\ Ok(/\ E.untouched
  /\ CASE E.kind = "uniform" -> E.lo = Lows(E.x) /\ E.hi = Highs(E.x)
       [] E.kind = "mono" -> MeanOk(E.m, E.x) /\ VarsOk(E.v, E.x)
       [] E.kind = "multi" -> MeanOk(E.m, E.x) /\ CovsOk(E.c, E.x)
       [] E.kind \in {"binomial", "binomialmulti"} -> MeanOk(E.m, E.x))
TUnif == IsOp("unif") /\ Ok(\A i \in DOMAIN E.x : Len(E.x[i]) = Len(E.lo) /\ \A j \in DOMAIN E.lo : Inside(E.x[i][j], 1000 * E.lo[j], 1000 * E.hi[j]))
\* spread: both outer fifths of the range are reached
TSpread == IsOp("spread") /\ Ok(\A j \in DOMAIN E.lo : LET w == E.hi[j] - E.lo[j] IN w = 0 \/ ((\E i \in DOMAIN E.x : 5 * (E.x[i][j] - 1000 * E.lo[j]) < 1000 * w) /\ (\E i \in DOMAIN E.x : 5 * (E.x[i][j] - 1000 * E.lo[j]) > 4000 * w)))
TNormal == IsOp("normal") /\ Ok(LET D == DOMAIN E.mu IN
  /\ Len(E.m) = Len(E.mu) /\ E.finite
  /\ \A j \in D : E.cov[j][j] = 0 => E.flat[j]
  /\ \A j \in D : MeanFits(E.m[j], E.mu[j], E.cov[j][j], E.n)
  /\ \A j, k \in D : CovFits(E.c[j][k], E.cov[j][k], E.cov[j][j], E.cov[k][k]))
TBits == IsOp("bits") /\ Ok(Len(E.k) = Len(E.p) /\ \A j \in DOMAIN E.p : FreqFits(E.k[j], E.p[j], E.n))
TBound == IsOp("bound") /\ Ok(LET ok(f(_)) == \A j \in DOMAIN E.x : f(j) IN
  /\ Len(E.y) = Len(E.x)
  /\ CASE E.kind = "clamp" -> ok(LAMBDA j : E.y[j] = Clamp(E.x[j], E.lo[j], E.hi[j]))
       [] E.kind = "redraw" -> ok(LAMBDA j : IF Inside(E.x[j], E.lo[j], E.hi[j]) THEN E.y[j] = E.x[j] ELSE Inside(E.y[j], E.lo[j], E.hi[j]))
       [] E.kind = "generator" -> ok(LAMBDA j : IF Inside(E.x[j], E.lo[j], E.hi[j]) THEN E.y[j] = E.x[j] ELSE E.y[j] \in ToSet(E.gen))
                                  /\ Len(E.gen) = Cardinality({j \in DOMAIN E.x : ~Inside(E.x[j], E.lo[j], E.hi[j])})
       [] E.kind = "none" -> E.y = E.x)
Fix(kind, arg, q) == CASE kind = "floor" -> Down4(q) [] kind = "ceil" -> Up4(q) [] kind = "round" -> Near4(q) [] kind = "modulo" -> Rest(q, 4 * arg)
\* one repairer, or several each on its own positions in turn
RECURSIVE Parts(_, _)
Parts(x, ops) == IF ops = <<>> THEN x ELSE LET o == Head(ops) IN
  Parts([j \in DOMAIN x |-> IF j \in ToSet(o.at) THEN Fix(o.kind, o.arg, x[j]) ELSE x[j]], Tail(ops))
TRepair == IsOp("repair") /\ Ok(E.invalid /\ (IF E.kind = "tenths" THEN E.y = [j \in DOMAIN E.x |-> Tenths(E.x[j])] ELSE E.y = Parts(E.x, E.ops)))
\* moving the centre moves nothing else
TCentre == IsOp("centre") /\ Ok(CASE E.kind = "uniform" -> \A j \in DOMAIN E.lo : E.lo2[j] + E.hi2[j] = 2 * E.mass[j] /\ E.hi2[j] - E.lo2[j] = E.hi[j] - E.lo[j]
       [] OTHER -> E.mean = E.mass /\ E.var2 = E.var)
\* samplers hand what they drew to their repairer, once, and return what it makes of it
TVia == IsOp("via") /\ Ok(E.calls = 1 /\ E.y = E.made)
TGo == IsOp("go") /\ Ok(E.got = (\A i \in DOMAIN E.votes : E.votes[i]) /\ E.asked <= Len(E.votes) /\ (E.got => E.asked = Len(E.votes)))
\* a checkpoint asks everyone and, when it stops, tells everyone
TCheck == IsOp("check") /\ Ok(E.got = (\A i \in DOMAIN E.votes : E.votes[i]) /\ E.log = (E.things \o [i \in DOMAIN E.votes |-> "c"]) \o (IF E.got THEN <<>> ELSE [i \in DOMAIN E.things |-> "last " \o E.things[i]]))
TFinite == IsOp("finite") /\ Ok(E.got = (E.bad = ""))
\* diagonal covariance: the ratio of the extreme variances against the limit
TCond == IsOp("cond") /\ Ok(LET hi == CHOOSE v \in ToSet(E.d) : \A u \in ToSet(E.d) : u <= v lo == CHOOSE v \in ToSet(E.d) : \A u \in ToSet(E.d) : v <= u IN E.got = (hi < E.limit * lo))
TChain == IsOp("chain") /\ Ok(E.order = [i \in 1..E.n |-> i] /\ E.got = E.n /\ E.kept = E.n)
TReset == IsOp("reset") /\ Ok(E.dim = E.want /\ E.fresh)
TSame == IsOp("same") /\ Ok(E.got = E.want)
TraceInit == l = 1 /\ n0 = 0
TraceNext == TEst \/ TUnif \/ TSpread \/ TNormal \/ TBits \/ TBound \/ TRepair \/ TCentre \/ TVia \/ TGo \/ TCheck \/ TFinite \/ TCond \/ TChain \/ TReset \/ TSame
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
