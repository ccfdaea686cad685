---------------------------- MODULE T_BitString -----------------------------
EXTENDS BitString, TraceBase
VARIABLE n0
vars == <<n0>>
N == Len(E.p)
D == Cardinality(Diff(E.p, E.r))
BucketCounts == UNION {IF b[2] > b[1] THEN b[1]..(b[2] - 1) ELSE {b[2]} : b \in {x \in ToSet(E.a) : x[3] > 0}}
MutOk == LET p == E.p r == E.r IN
  Len(r) = Len(p) /\
  CASE E.kind = "one" -> IsFlip(p, r, 1)
    [] E.kind = "det" -> IsFlips(p, r, E.k)
    [] E.kind = "single" -> IsFlip(p, r, E.k)
    [] E.kind = "rate" -> (E.k <= 0 => D = 0) /\ (E.k >= 8 => D = N)
    [] E.kind = "inv" -> IsInversion(p, r)
    [] E.kind = "next" -> IsNext(p, r)
    [] E.kind = "prev" -> IsPrev(p, r)
    [] E.kind = "standard" -> (E.k >= 8 => D = N)
    [] E.kind = "uniform" -> TRUE
    [] E.kind = "normal" -> TRUE
    [] E.kind = "fast" -> TRUE
    [] E.kind \in {"conditional", "shifted"} -> D >= 1 /\ (E.k >= 8 => D = N)
    [] E.kind = "bucket" -> D \in BucketCounts
    [] E.kind = "boolflip" -> D = N
TMut == IsOp("mut") /\ TRUE = MutOk /\ UNCHANGED vars
CrossOk == LET p == E.p q == E.q R == <<E.r, E.s>> IN
  Locuswise(p, q, E.r, E.s) /\
  CASE E.kind = "1pt" -> R \in OnePts(p, q)
    [] E.kind = "npt" -> R \in NPts(p, q, E.k)
    [] E.kind = "gene" -> R \in Genes(p, q, E.g, E.k)
    [] E.kind = "uni" -> IsUniform(p, q, E.r, E.s) /\ (E.k <= 0 => R = <<p, q>>) /\ (E.k >= 8 => R = <<q, p>>)
TCross == IsOp("cross") /\ TRUE = CrossOk /\ UNCHANGED vars
TInit == IsOp("init") /\ TRUE = (CASE E.kind = "fixed" -> E.len = E.n /\ E.dim = E.n /\ ~E.valid
                                  [] E.kind = "variable" -> E.len >= E.n /\ E.len < E.m /\ ~E.valid) /\ UNCHANGED vars
TBad == IsOp("badinit") /\ TRUE = (E.threw = (E.n >= E.m)) /\ UNCHANGED vars
\* number of flipped loci over K applications of a mutation flipping each of n loci with probability k/8
Rate == LET n == E.K * E.n mean == (n * E.k) \div 8 var == (n * E.k * (8 - E.k)) \div 64 IN
  (E.c - mean) * (E.c - mean) <= 64 * var + 64
TRate == IsOp("rates") /\ TRUE = Rate /\ UNCHANGED vars
\* every locus is eventually changed (or exchanged)
TReach == IsOp("reach") /\ TRUE = (\A i \in DOMAIN E.c : E.c[i] > 0) /\ UNCHANGED vars
\* what an operator does is decided by the library's generator alone
TRepro == IsOp("repro") /\ TRUE = (E.r = E.s) /\ UNCHANGED vars
TraceInit == l = 1 /\ n0 = 0
TraceNext == TMut \/ TCross \/ TInit \/ TBad \/ TRate \/ TReach \/ TRepro
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
