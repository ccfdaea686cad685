------------------------------- MODULE T_Trees ------------------------------
EXTENDS Trees, TraceBase
VARIABLE tr
vars == <<tr>>
\* what is told of a tree is true of it
Told(o) == LET t == o.t IN /\ WellFormed(t) /\ o.par
  /\ o.size = [i \in DOMAIN t |-> SizeAt(t, i)] /\ o.depth = [i \in DOMAIN t |-> DepthAt(t, i)] /\ o.cum = [i \in DOMAIN t |-> CumAt(t, i)]
  /\ o.val = Val(t, Len(t))
R == [i \in DOMAIN E.res |-> E.res[i].t]
Step(f) == tr' = R /\ TRUE = ((\A i \in DOMAIN E.res : Told(E.res[i])) /\ R = f)
Free == tr' = R /\ TRUE = (\A i \in DOMAIN E.res : Told(E.res[i]))
\* trees are numbered from 1, nodes from 1
TNew == IsOp("new") /\ Step(E.want)
TPut == IsOp("put") /\ Step([tr EXCEPT ![E.i] = Put(tr[E.i], E.k, Sub(tr[E.j], E.l))])
TNode == IsOp("node") /\ Step([tr EXCEPT ![E.i] = IF Ar(E.n) = Ar(tr[E.i][E.k]) THEN [tr[E.i] EXCEPT ![E.k] = E.n] ELSE Put(tr[E.i], E.k, <<E.n>>)])
TSwapT == IsOp("swapt") /\ Step([tr EXCEPT ![E.i] = tr[E.j], ![E.j] = tr[E.i]])
TSwapS == IsOp("swaps") /\ Step(IF E.i # E.j THEN [tr EXCEPT ![E.i] = Put(tr[E.i], E.k, Sub(tr[E.j], E.l)), ![E.j] = Put(tr[E.j], E.l, Sub(tr[E.i], E.k))]
     ELSE [tr EXCEPT ![E.i] = Put(Put(tr[E.i], E.l, Sub(tr[E.i], E.k)), E.k, Sub(tr[E.i], E.l))])   \* k before l, disjoint
TCopy == IsOp("copy") /\ Step([tr EXCEPT ![E.i] = Sub(tr[E.j], E.l)])
TPush == IsOp("push") /\ Step([tr EXCEPT ![E.i] = E.nodes])
TJoin == IsOp("join") /\ Step([tr EXCEPT ![E.i] = (tr[E.j] \o tr[E.h]) \o <<E.n>>])
TText == IsOp("text") /\ Step([tr EXCEPT ![E.i] = tr[E.j]]) /\ TRUE = E.same
Others(S) == \A i \in (DOMAIN tr) \ S : R[i] = tr[i]
TPrune == IsOp("prune") /\ Free /\ TRUE = (Others({E.i}) /\ Fits2(tr[E.i], E.max, R[E.i]))
TVary == IsOp("vary") /\ Free /\ TRUE = (LET a == tr[E.i] x == R[E.i] IN
  CASE E.kind = "xover" -> Others({E.i, E.j}) /\ Crossed(a, tr[E.j], E.max, x, R[E.j])
    [] E.kind = "branch" -> Others({E.i}) /\ Branched(a, E.made, E.max, x)
    [] E.kind = "point" -> Others({E.i}) /\ Pointed(a, ToSet(E.set), x)
    [] E.kind = "expand" -> Others({E.i}) /\ Expanded(a, E.made, E.max, x)
    [] E.kind = "collapse" -> Others({E.i}) /\ Collapsed(a, E.made, E.max, x)
    [] E.kind = "hoist" -> Others({E.i}) /\ Hoisted(a, x))
Idle == UNCHANGED vars
TWalk == IsOp("walk") /\ TRUE = (\A i \in DOMAIN E.ways : E.ways[i] = tr[E.i]) /\ Idle
TSubs == IsOp("subs") /\ TRUE = (E.got = [i \in DOMAIN tr[E.i] |-> Sub(tr[E.i], i)]) /\ Idle
TFind == IsOp("find") /\ TRUE = (SameMulti(E.got, SelectSeq(tr[E.i], LAMBDA n : Ar(n) = E.ar))) /\ Idle
\* choosing in proportion to size: each subtree as often as it has nodes
TPick == IsOp("pick") /\ TRUE = (LET t == tr[E.i] IN E.c = [i \in DOMAIN t |-> SizeAt(t, i)]) /\ Idle
TEq == IsOp("eq") /\ TRUE = (E.eq = (tr[E.i] = tr[E.j]) /\ E.ne = ~E.eq /\ E.seq = (Sub(tr[E.i], E.k) = Sub(tr[E.j], E.l))) /\ Idle
(* ---- random trees                                                         *)
Known(n, set) == n \in set \/ (Ar(n) = 0 /\ Tag(n) \in 50..54 /\ \E m \in set : Ar(m) = 0 /\ Tag(m) >= 50)
Drawn(o, set) == Told(o) /\ \A i \in DOMAIN o.t : Known(o.t[i], set)
InitOk == LET set == ToSet(E.set) t == E.res.t IN Drawn(E.res, set) /\ (IF E.kind = "full" THEN IsFull(t, E.d) ELSE Depth(t) <= E.d)
TInit == IsOp("init") /\ TRUE = InitOk /\ Idle
\* one round of ramped half and half: every second tree is full, of every depth once
RampOk == LET set == ToSet(E.set) t == [i \in DOMAIN E.out |-> E.out[i].t] D == E.d
              F == {i \in DOMAIN t : (i % 2 = 1) = E.fullfirst} IN
  /\ Len(t) = 2 * (D - 1) /\ \A i \in DOMAIN t : Drawn(E.out[i], set) /\ Depth(t[i]) <= D
  /\ \A i \in F : \E d \in 2..D : IsFull(t[i], d) /\ Depth(t[i]) = d
  /\ {Depth(t[i]) : i \in F} = 2..D
TRamp == IsOp("ramp") /\ TRUE = RampOk /\ Idle
HalfOk == LET set == ToSet(E.set) t == [i \in DOMAIN E.out |-> E.out[i].t] D == E.d part == E.n \div (2 * (D - 1)) IN
  /\ Len(t) = E.n /\ \A i \in DOMAIN t : Drawn(E.out[i], set) /\ Depth(t[i]) <= D
  /\ \A d \in 2..D : Cardinality({i \in DOMAIN t : Depth(t[i]) = d /\ IsFull(t[i], d)}) >= part
THalf == IsOp("half") /\ TRUE = HalfOk /\ Idle
\* typed: nodes carry their index in the table of <<type, argument types>>
Ty(n) == E.table[Tag(n)][1]
Want(n, k) == E.table[Tag(n)][k + 1]
TTyped == IsOp("typed") /\ TRUE = (LET t == E.res.t IN Told(E.res) /\ (\A i \in DOMAIN t : t[i] \in ToSet(E.set))
      /\ Typed(t, Ty, Want, E.root) /\ (IF E.full THEN IsFull(t, E.d) ELSE Depth(t) <= E.d)) /\ Idle
TRefuse == IsOp("refuse") /\ TRUE = E.threw /\ Idle
Near(c, K, num, den) == LET e == (K * num) \div den IN Abs(c - e) <= 7 * ISqrt(e) + 7
\* each node is as likely as another
TStat == IsOp("stat") /\ TRUE = (\A i \in DOMAIN E.c : Near(E.c[i], E.K, 1, Len(E.c))) /\ Idle
TraceInit == l = 1 /\ tr = <<>>
TraceNext == TNew \/ TPut \/ TNode \/ TSwapT \/ TSwapS \/ TCopy \/ TPush \/ TJoin \/ TText \/ TPrune \/ TVary \/ TWalk \/ TSubs \/ TFind \/ TPick \/ TEq \/ TInit \/ TRamp \/ THalf \/ TTyped \/ TRefuse \/ TStat
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
