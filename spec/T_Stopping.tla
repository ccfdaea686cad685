----------------------------- MODULE T_Stopping -----------------------------
EXTENDS Stopping, TraceBase
VARIABLES cs, ks        \* criteria in use: id -> [c, s]; the parts of the criterion built from parameters
vars == <<cs, ks>>
W == [fits |-> E.fits, evals |-> E.evals, now |-> E.now]
TNew == IsOp("cnew") /\ cs' = (E.id :> [c |-> [kind |-> E.kind, a |-> E.a, b |-> E.b, dir |-> E.dir], s |-> CInit(E.n0, E.now)]) @@ cs /\ UNCHANGED ks
TAsk == /\ IsOp("cask")
        /\ LET z == CStep(cs[E.id].c, cs[E.id].s, W) IN
           /\ cs' = [cs EXCEPT ![E.id].s = z]
           /\ TRUE = (E.ans = CGo(cs[E.id].c, z, W))
           /\ TRUE = (E.n >= 0 => E.n = z.n)
        /\ UNCHANGED ks
TReset == IsOp("creset") /\ cs' = [cs EXCEPT ![E.id].s = CReset(@)] /\ UNCHANGED ks
TSet == IsOp("cset") /\ cs' = [cs EXCEPT ![E.id].s = CReset(@), ![E.id].c.a = E.a, ![E.id].c.b = E.b] /\ TRUE = (E.got = <<E.a, E.b>>) /\ UNCHANGED ks
\* saved and restored into another one: counts on from the same point
TCopy == IsOp("ccopy") /\ cs' = (E.id :> [cs[E.from] EXCEPT !.c.a = E.a]) @@ cs /\ UNCHANGED ks
TEnd == IsOp("cend") /\ cs' = << >> /\ UNCHANGED ks
CombOk == LET m == Len(E.calls) IN
  /\ m <= E.n /\ E.calls = [i \in 1..m |-> i]
  /\ E.out = (m = E.n /\ AllYes(E.got))
  /\ (~E.out => ~AllYes(E.got))
TComb == IsOp("comb") /\ TRUE = CombOk /\ UNCHANGED vars
\* an inverted criterion says the contrary
TInv == IsOp("inv") /\ TRUE = (E.calls = 1 /\ E.out = ~E.got) /\ UNCHANGED vars
TMake == IsOp("mknew") /\ ks' = [i \in DOMAIN E.ks |-> [c |-> E.ks[i], s |-> CInit(0, 0)]] /\ UNCHANGED cs
TMakeAsk == /\ IsOp("mkask")
            /\ ks' = [i \in DOMAIN ks |-> [ks[i] EXCEPT !.s = CStep(ks[i].c, @, W)]]
            /\ TRUE = (E.ans = \A i \in DOMAIN ks : CGo(ks[i].c, ks'[i].s, W))
            /\ UNCHANGED cs
TRefuse == IsOp("refuse") /\ TRUE = E.thrown /\ UNCHANGED vars
\* signals: noticed at the next check, not before
TSig == IsOp("sig") /\ TRUE = (IF E.kind = "ctrlc" THEN E.before /\ ~E.after ELSE E.before /\ E.after /\ E.calls = E.raised) /\ UNCHANGED vars
\* one target shared by several islands: everybody goes on until one has reached it, nobody afterwards
HasReached(k) == \E i \in 1 .. Len(E.fits[k]) : IF E.dir = 1 THEN E.fits[k][i] <= E.target ELSE E.fits[k][i] >= E.target
SharedRight == \A k \in 1 .. Len(E.ans) : (E.ans[k] = 1) = (\A q \in 1 .. k : ~HasReached(q))
\* known finding shared-target-inverted: the flag is raised by the first check that has NOT reached the target
RECURSIVE SharedInverted(_, _)
SharedInverted(k, found) == IF k > Len(E.ans) THEN TRUE
                            ELSE LET go == ~found /\ ~HasReached(k) IN (E.ans[k] = 1) = go /\ SharedInverted(k + 1, found \/ go)
TShared == IsOp("shared") /\ TRUE = (IF SharedRight THEN TRUE ELSE SharedInverted(1, FALSE) /\ PrintT(<<"KNOWN", "shared-target-inverted">>)) /\ UNCHANGED vars
TraceInit == l = 1 /\ cs = << >> /\ ks = << >>
TraceNext == TNew \/ TAsk \/ TReset \/ TSet \/ TCopy \/ TEnd \/ TComb \/ TInv \/ TMake \/ TMakeAsk \/ TRefuse \/ TSig \/ TShared
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
