----------------------------- MODULE T_Breeding -----------------------------
EXTENDS Breeding, TraceBase
VARIABLE ps
vars == <<ps>>
W(r) == [on |-> TRUE, r |-> r]
Near(c, K, num, den) == LET e == (K * num) \div den IN Abs(c - e) <= 7 * ISqrt(e) + 7
\* ---- the populator on its own ----
PNew == IsOp("pnew") /\ ps' = [src |-> E.src, d |-> E.d, c |-> Len(E.d), k |-> 1, kind |-> E.kind]
Seen(p) == E.d = p.d /\ E.pos = p.c /\ E.exh = (p.c = Len(p.d))
Out == ps.kind = "seqpop" /\ ps.k > Len(ps.src)
\* copy of the next / of any source individual
Copy(x, k) == IF ps.kind = "seqpop" THEN x = [g |-> <<ps.k>>, v |-> ps.src[ps.k]] /\ k = ps.k + 1 ELSE x.g[1] \in DOMAIN ps.src /\ x = [g |-> <<x.g[1]>>, v |-> ps.src[x.g[1]]] /\ k = ps.k
TakeP == IF ps.c < Len(ps.d) \/ (E.threw /\ Out) THEN ps ELSE [ps EXCEPT !.d = Append(ps.d, [g |-> E.x, v |-> E.xv]), !.k = IF ps.kind = "seqpop" THEN ps.k + 1 ELSE ps.k]
PDeref == IsOp("pderef") /\ E.threw = (ps.c = Len(ps.d) /\ Out) /\ TRUE = (ps.c = Len(ps.d) /\ ~Out => Copy([g |-> E.x, v |-> E.xv], TakeP.k)) /\ TRUE = (E.threw \/ (E.x = TakeP.d[ps.c + 1].g /\ E.xv = TakeP.d[ps.c + 1].v)) /\ ps' = TakeP /\ TRUE = Seen(ps')
PNext == IsOp("pnext") /\ ps' = Adv(ps) /\ TRUE = Seen(ps')
PMark == IsOp("pmark") /\ ps' = [ps EXCEPT !.d[ps.c + 1] = [g |-> Append(ps.d[ps.c + 1].g, E.t), v |-> FALSE]] /\ TRUE = Seen(ps')
PInsert == IsOp("pinsert") /\ ps' = [ps EXCEPT !.d = SubSeq(ps.d, 1, ps.c) \o <<[g |-> E.x, v |-> E.xv]>> \o SubSeq(ps.d, ps.c + 1, Len(ps.d))] /\ TRUE = Seen(ps')
PSeek == IsOp("pseek") /\ ps' = [ps EXCEPT !.c = E.to] /\ TRUE = Seen(ps')
PReserve == IsOp("preserve") /\ UNCHANGED vars /\ TRUE = Seen(ps)
PSelect == IsOp("pselect") /\ E.threw = Out /\ ps' = (IF Out \/ ps.kind # "seqpop" THEN ps ELSE [ps EXCEPT !.k = ps.k + 1]) /\ TRUE = (E.threw \/ Copy([g |-> E.x, v |-> E.xv], ps'.k)) /\ TRUE = Seen(ps')
\* ---- one application of an operator through a populator ----
Called(o) == ToSet(E.called) \subseteq Tags(o)
TApply == IsOp("apply") /\ TRUE = (E.same /\ Called(E.tree) /\ \E x \in Steps(E.tree, [d |-> E.d0, c |-> Len(E.d0)], E.src, W(E.d)) : x.d = E.d /\ x.c = E.pos) /\ UNCHANGED vars
\* ---- breeders ----
TBreed == IsOp("breed") /\ TRUE = (E.same /\ Called(E.tree) /\ Len(E.d) = HowMany(E.rate8, E.count, Len(E.src)) /\ E.d \in Bred(E.tree, Len(E.d), E.src, W(E.d))) /\ UNCHANGED vars
TSga == IsOp("sga") /\ TRUE = Sga(E.quad, E.pc, E.mon, E.pm, E.p, E.r) /\ UNCHANGED vars
\* selection followed by the transform: n copies of source members, in the order of E.p, transformed
TSelTr == IsOp("seltr") /\ TRUE = (E.same /\ Len(E.r) = E.n /\ (\A i \in DOMAIN E.r : E.r[i].g[1] \in DOMAIN E.src) /\ Sga(E.quad, E.pc, E.mon, E.pm, [i \in DOMAIN E.r |-> [g |-> <<E.r[i].g[1]>>, v |-> E.src[E.r[i].g[1]]]], E.r)) /\ UNCHANGED vars
\* one offspring per parent: E.par[i] the parents' fitness, E.kid[i] their offspring's; out: genotype and fitness
TOne == IsOp("onetoone") /\ TRUE = (E.same /\ Len(E.out) = E.n /\ \A i \in DOMAIN E.out :
    LET z == E.out[i][1] % 100 IN z \in DOMAIN E.par /\ LET a == <<z, E.par[z]>> b == <<z + 100, E.kid[z]>> IN
       (\A h \in DOMAIN E.out : (h # i /\ (h - 1) \div Len(E.par) = (i - 1) \div Len(E.par)) => E.out[h][1] % 100 # z) /\ E.out[i] \in (IF ~PBetter(E.par[z], E.kid[z], E.dir) THEN {b} ELSE IF E.p8 = 0 THEN {b} ELSE IF E.p8 = 8 THEN {a} ELSE {a, b})) /\ UNCHANGED vars
\* ---- numbers and rates ----
THm == IsOp("hm") /\ TRUE = (E.got = HowMany(E.rate8, E.count, E.n) /\ E.again = E.got /\ E.neg = (IF E.count = 0 THEN HowMany(8 - E.rate8, 0, E.n) ELSE HowMany(0, -E.count, E.n)) /\ E.after = E.got) /\ UNCHANGED vars
TFreq == IsOp("freq") /\ TRUE = (Len(E.c) = Len(E.w) /\ SumSeq(E.c) = E.n /\ \A i \in DOMAIN E.w : (IF E.w[i] = 0 THEN E.c[i] = 0 ELSE Near(E.c[i], E.n, E.w[i], SumSeq(E.w)))) /\ UNCHANGED vars
TRate == IsOp("rate") /\ TRUE = (IF E.q = 0 THEN E.c = 0 ELSE IF E.q = 4 THEN E.c = E.n ELSE Near(E.c, E.n, E.q, 4)) /\ UNCHANGED vars
\* ---- wrappers: what is reported, what is invalidated ----
TWrap == IsOp("wrap") /\ TRUE = (LET rep == E.m # 1 IN
   /\ E.ret = rep /\ E.va = (E.va0 /\ ~rep) /\ (E.kind = "quad" => E.vb = (E.vb0 /\ ~rep)) /\ (E.kind # "quad" => E.vb = E.vb0)
   /\ E.touched = (E.m = 0)) /\ UNCHANGED vars
TraceInit == l = 1 /\ ps = [src |-> <<>>, d |-> <<>>, c |-> 0, k |-> 1, kind |-> ""]
TraceNext == PNew \/ PDeref \/ PNext \/ PMark \/ PInsert \/ PSeek \/ PReserve \/ PSelect \/ TApply \/ TBreed \/ TSga \/ TSelTr \/ TOne \/ THm \/ TFreq \/ TRate \/ TWrap
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
