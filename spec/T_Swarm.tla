------------------------------ MODULE T_Swarm -------------------------------
EXTENDS Swarm, TraceBase
VARIABLES cfg, pos, fit, mem, nb, at
vars == <<cfg, pos, fit, mem, nb, at>>
\* JSON: swarms are sequences, 1-based; indices in events 0-based
N == Len(pos)
D == cfg.dir
HS == 0..(NbCount(cfg.topo, N, cfg.k) - 1)
M0 == [i \in 0..(N - 1) |-> mem[i + 1]]
None == [topo |-> "none", k |-> 0, dir |-> 0, sync |-> FALSE]
\* at[i]: what particle i does next: 0 velocity, 1 flight, 2 evaluation, 3 memory
TNew == IsOp("new") /\ cfg' = [topo |-> E.topo, k |-> E.k, dir |-> E.dir, sync |-> E.sync] /\ pos' = E.pos /\ fit' = E.fit
  /\ mem' = E.mem /\ nb' = E.nb /\ at' = [i \in DOMAIN E.pos |-> 0]
  /\ TRUE = (LET n == Len(E.pos) m0 == [i \in 0..(n - 1) |-> E.mem[i + 1]] IN
       /\ E.vok /\ E.fit = E.want
       /\ E.mem = [i \in 1..n |-> <<E.pos[i], E.fit[i]>>]
       /\ Len(E.nb) = n
       /\ \A i \in 0..(n - 1) : IsBestOf(E.nb[i + 1], m0, Nb(E.topo, n, E.k, Home(E.topo, n, E.k, i)), E.dir)
       /\ IsBestOf(E.gb, m0, 0..(n - 1), E.dir))
\* synchronous: nobody is ahead of the others by more than the step at hand
InTurn(i, ph) == at[i] = ph /\ (cfg.sync => \A j \in DOMAIN at : at[j] \in {ph, (ph + 1) % 4})
Moves(i, ph) == at' = [at EXCEPT ![i] = (ph + 1) % 4]
TVel == IsOp("vel") /\ TRUE = (LET i == E.i + 1 x == pos[i] IN InTurn(i, 0) /\ E.x = x
      /\ \A j \in DOMAIN x : VelOk(E.a, x[j], E.v[j], mem[i][1][j], nb[i][1][j], E.gb[1][j], E.y[j]))
  /\ TRUE = IsBestOf(E.gb, M0, 0..(N - 1), D)
  /\ Moves(E.i + 1, 0) /\ UNCHANGED <<cfg, pos, fit, mem, nb>>
TFly == IsOp("fly") /\ TRUE = (LET i == E.i + 1 IN InTurn(i, 1) /\ E.x = Fly(pos[i], E.v, E.lo, E.hi) /\ E.invalid)
  /\ pos' = [pos EXCEPT ![E.i + 1] = E.x] /\ Moves(E.i + 1, 1) /\ UNCHANGED <<cfg, fit, mem, nb>>
TEval == IsOp("eval") /\ TRUE = (InTurn(E.i + 1, 2) /\ E.x = pos[E.i + 1])
  /\ fit' = [fit EXCEPT ![E.i + 1] = E.f] /\ Moves(E.i + 1, 2) /\ UNCHANGED <<cfg, pos, mem, nb>>
\* memories after the update of particle i
TUpd == IsOp("upd") /\ TRUE = (LET i == E.i + 1 new == Remember(mem[i], <<pos[i], fit[i]>>, D) m2 == [M0 EXCEPT ![E.i] = new] IN
      /\ InTurn(i, 3) /\ E.x = pos[i] /\ E.f = fit[i] /\ E.mem = new
      /\ Len(E.nb) = N
      /\ \A j \in 0..(N - 1) : IsBestOf(E.nb[j + 1], m2, Nb(cfg.topo, N, cfg.k, Home(cfg.topo, N, cfg.k, j)), D)
      /\ IsBestOf(E.gb, m2, 0..(N - 1), D))
  /\ mem' = [mem EXCEPT ![E.i + 1] = E.mem] /\ nb' = E.nb /\ Moves(E.i + 1, 3) /\ UNCHANGED <<cfg, pos, fit>>
\* the stopping criterion is asked between iterations, with everybody's memory up to date
TIter == IsOp("iter") /\ TRUE = ((\A j \in DOMAIN at : at[j] = 0) /\ E.pos = pos /\ E.fit = fit /\ E.mem = mem /\ E.gens = E.want) /\ UNCHANGED vars
Idle == UNCHANGED vars
Sizes(n, k, out) == out = [h \in 1..Len(out) |-> SetToSortSeq(Nb("linear", n, k, h - 1), <)] /\ Len(out) = LinearCount(n, k)
TSize == IsOp("badsize") /\ TRUE = E.threw /\ Idle
TWeight == IsOp("weight") /\ TRUE = (CASE E.kind = "lindec" -> Abs((E.y * E.stop) - (1000 * ((E.a - E.b) * (E.stop - E.c) + (E.b * E.stop)))) <= E.stop
      [] E.kind = "rndw" -> E.y >= 1000 * E.a /\ E.y <= 1000 * E.b [] E.kind = "badw" -> E.threw
      [] E.kind = "decay" -> E.lo = E.a /\ Abs((E.y * E.stop) - (1000 * MaxOf(E.a * E.stop, (E.stop - E.c) * E.b))) <= E.stop) /\ Idle
Near(c, K, num, den) == LET e == (K * num) \div den IN Abs(c - e) <= 7 * ISqrt(e) + 7
TBits == IsOp("bits") /\ TRUE = (E.invalid /\ (IF E.kind = "bitext" THEN E.x = E.want ELSE Near(E.c, E.K, 1, 2) /\ E.c + E.z = E.K)) /\ Idle
TPo == IsOp("po") /\ TRUE = (E.threw = E.want /\ (~E.want => E.got = E.f)) /\ Idle
TPartic == IsOp("partic") /\ TRUE = (E.got = E.want) /\ Idle
TraceInit == l = 1 /\ cfg = None /\ pos = <<>> /\ fit = <<>> /\ mem = <<>> /\ nb = <<>> /\ at = <<>>
TraceNext == TNew \/ TVel \/ TFly \/ TEval \/ TUpd \/ TIter \/ TSize \/ TWeight \/ TBits \/ TPo \/ TPartic
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
