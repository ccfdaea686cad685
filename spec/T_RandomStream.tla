--------------------------- MODULE T_RandomStream ---------------------------
EXTENDS RandomStream, TraceBase
VARIABLES tab, fresh, gen, roots, files
vars == <<tab, fresh, gen, roots, files>>
Near(c, K, num, den) == LET e == (K * num) \div den IN Abs(c - e) <= 7 * ISqrt(e) + 7
TSeed == /\ IsOp("seed") /\ files' = files /\ tab' = tab
         /\ (IF E.seed \in DOMAIN roots THEN roots' = roots /\ fresh' = fresh /\ gen' = (E.g :> roots[E.seed]) @@ gen
             ELSE roots' = (E.seed :> fresh) @@ roots /\ fresh' = fresh + 1 /\ gen' = (E.g :> fresh) @@ gen)
TDraw == /\ IsOp("draw") /\ TRUE = (Consistent(tab, gen[E.g], E.k, E.v) /\ InRange(E.q, E.lo, E.hi))
         /\ (LET s == Serve(tab, fresh, gen[E.g], E.k, E.v) IN tab' = s.tab /\ fresh' = s.fresh /\ gen' = [gen EXCEPT ![E.g] = s.h])
         /\ UNCHANGED <<roots, files>>
TSave == IsOp("save") /\ files' = (E.file :> gen[E.g]) @@ files /\ UNCHANGED <<tab, fresh, gen, roots>>
TLoad == IsOp("load") /\ TRUE = E.tail /\ gen' = (E.g :> files[E.file]) @@ gen /\ UNCHANGED <<tab, fresh, roots, files>>
TForget == IsOp("forget") /\ tab' = <<>> /\ fresh' = 1 /\ gen' = <<>> /\ roots' = <<>> /\ files' = <<>>
\* memberships: result of a choice or shuffle against the elements offered
TChoice == IsOp("choice") /\ TRUE = (\E i \in DOMAIN E.p : E.p[i] = E.x) /\ UNCHANGED vars
TShuffle == IsOp("shuffle") /\ TRUE = SameMulti(E.p, E.r) /\ UNCHANGED vars
\* a wheel stops at a slot of positive weight
TWheel == IsOp("wheel") /\ TRUE = (E.i \in DOMAIN E.w /\ E.w[E.i] > 0) /\ UNCHANGED vars
TRate == IsOp("rate") /\ TRUE = Near(E.c, E.n, E.num, E.den) /\ UNCHANGED vars
TWheels == IsOp("wheels") /\ TRUE = (\A i \in DOMAIN E.w : IF E.w[i] = 0 THEN E.c[i] = 0 ELSE Near(E.c[i], E.n, E.w[i], SumSeq(E.w))) /\ UNCHANGED vars
\* a mean within a band of seven standard errors
TMean == IsOp("mean") /\ TRUE = (Abs(E.m - E.want) <= E.band) /\ UNCHANGED vars
TRefuse == IsOp("refuse") /\ TRUE = E.threw /\ UNCHANGED vars
TraceInit == l = 1 /\ tab = <<>> /\ fresh = 1 /\ gen = <<>> /\ roots = <<>> /\ files = <<>>
TraceNext == TSeed \/ TDraw \/ TSave \/ TLoad \/ TForget \/ TChoice \/ TShuffle \/ TWheel \/ TRate \/ TWheels \/ TMean \/ TRefuse
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
