------------------------------- MODULE T_Dmls -------------------------------
EXTENDS Dmls, TraceBase
VARIABLES A, c, seen, phase
vars == <<A, c, seen, phase>>
Flip(x, k) == IF (x \div 2^k) % 2 = 1 THEN x - 2^k ELSE x + 2^k
Nbs(x) == {Flip(x, k) : k \in 0..(c.K - 1)}
TNew == IsOp("new") /\ c' = E /\ A' = {} /\ seen' = {} /\ phase' = "init"
SameArch(ms, S) == ToSet(ms) = S /\ Len(ms) = Cardinality(S)
\* the starting population is evaluated and submitted, on top of what the
\* archive already held (E.before, members of an earlier run)
TStart ==
  /\ IsOp("begin") /\ phase = "init"
  /\ A' = UpdSeq(ToSet(E.before), [i \in DOMAIN E.pop |-> [x |-> E.pop[i].x, v |-> Obj(E.pop[i].x, c.pb), fl |-> E.pop[i].fl]], c.dirs, c.replace)
  /\ seen' = {a.v : a \in ToSet(E.before)} \cup {Obj(E.pop[i].x, c.pb) : i \in DOMAIN E.pop}
  /\ phase' = "run" /\ UNCHANGED c
\* one round: E.ex the sources explored with the neighbours evaluated, in order
TRound ==
  /\ IsOp("round") /\ phase = "run"
  /\ SelOk([i \in DOMAIN E.ex |-> E.ex[i].x], A, c.num) = TRUE
  /\ TRUE = \A i \in DOMAIN E.ex :
       LET s == CHOOSE a \in A : a.x = E.ex[i].x
           nb == E.ex[i].nb
           full == E.ex[i].order   \* the order in which all neighbours would come
       IN /\ nb = SubSeq(full, 1, Len(nb)) /\ ToSet(full) = Nbs(s.x)
          /\ Len(nb) = Looked(c.kind, c.number, s, full, c.pb, c.dirs)
  /\ A' = RoundEnd(A, c.kind, E.ex, c.K, c.pb, c.dirs, c.replace)
  /\ SameArch(E.arch, A')
  /\ seen' = seen \cup UNION {{Obj(E.ex[i].nb[j], c.pb) : j \in DOMAIN E.ex[i].nb} : i \in DOMAIN E.ex}
  /\ TRUE = \A v \in seen' : \E a \in A' : WeaklyDominates(a.v, v, c.dirs)
  /\ TRUE = (c.kind = "exhaustive" => Closed(A', Nbs, c.pb, c.dirs))
  /\ phase' = IF E.goon /\ ~AllVisited(A') THEN "run" ELSE "stop"
  /\ UNCHANGED c
TEnd == IsOp("end") /\ phase = "stop" /\ SameArch(E.arch, A) /\ phase' = "none" /\ UNCHANGED <<A, c, seen>>
-----------------------------------------------------------------------------
\* the local search as a mutation operator: the result is one of the archive
TMon ==
  /\ IsOp("monop") /\ UNCHANGED vars
  /\ TRUE = \E i \in DOMAIN E.arch : E.arch[i].x = E.out.x /\ E.arch[i].v = E.out.v
  /\ E.out.v = Obj(E.out.x, c.pb) /\ ~Dominates(Obj(E.in, c.pb), E.out.v, c.dirs)
  /\ E.rounds = E.step \/ E.allvisited
\* the local search run from an updater every E.every calls: the global archive
\* then holds the best of itself and of what the search found
TUpd ==
  /\ IsOp("upd") /\ UNCHANGED vars
  /\ E.ran = (E.call % E.every = 0)
  /\ IF ~E.ran THEN E.after = E.before
     ELSE LET S == UpdSeq({[x |-> a.x, v |-> a.v] : a \in ToSet(E.before)}, [i \in DOMAIN E.found |-> [x |-> E.found[i].x, v |-> E.found[i].v]], c.dirs, TRUE)
          IN /\ {a.v : a \in ToSet(E.after)} = {a.v : a \in S} /\ Len(E.after) = Cardinality(S)
             /\ \A i \in DOMAIN E.after : E.after[i].v = Obj(E.after[i].x, c.pb)
TraceInit == l = 1 /\ A = {} /\ c = <<>> /\ seen = {} /\ phase = "none"
TraceNext == TNew \/ TStart \/ TRound \/ TEnd \/ TMon \/ TUpd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
