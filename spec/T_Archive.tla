----------------------------- MODULE T_Archive ------------------------------
(* Histories recorded from the real archives must be behaviours of Archive.  *)
EXTENDS Archive, TraceBase

VARIABLE worth            \* recorded worth table of the fitness/diversity archive
tvars == <<avars, worth, l>>

Logged == ToSet(E.arch)
\* the recorded archive is a set: no solution stored twice
Stored == Cardinality(Logged) = Len(E.arch) /\ arch' = Logged

TNew == /\ IsOp("new")
        /\ New([kind |-> E.kind, dirs |-> E.dirs, replace |-> E.replace, cap |-> E.cap])
        /\ worth' = IF E.kind = "fitdiv" THEN [i \in 0..(Len(E.worth) - 1) |-> E.worth[i + 1]] ELSE worth

TIns ==
  /\ IsOp("ins") /\ E.kind = conf.kind /\ UNCHANGED worth
  /\ CASE conf.kind = "unbounded" -> Insert(E.x) /\ E.ret = UpdOk(arch, E.x, conf)
       [] conf.kind = "impr" -> InsertImpr(E.x) /\ E.ret = ImprOk(arch, E.x, conf)
       [] conf.kind = "fitdiv" -> /\ Logged \subseteq Upd(arch, E.x, conf)
                                  /\ IsBestCut(Logged, Upd(arch, E.x, conf), conf.cap, worth)
                                  /\ arch' = Logged /\ hist' = hist \cup {E.x} /\ UNCHANGED conf
                                  /\ E.ret = UpdOk(arch, E.x, conf)
       [] OTHER -> FALSE
  /\ Stored

TPop ==
  /\ IsOp("pop") /\ E.kind = conf.kind /\ UNCHANGED <<worth, conf>>
  /\ hist' = hist \cup ToSet(E.xs)
  /\ CASE conf.kind = "unbounded" -> arch' = UpdSeq(arch, E.xs, conf) /\ E.ret = UpdSeqOk(arch, E.xs, conf)
       [] conf.kind = "impr" -> arch' = ImprSeq(arch, E.xs, conf) /\ E.ret = ImprSeqOk(arch, E.xs, conf)
       [] conf.kind = "fitdiv" -> /\ IsBestCut(Logged, UpdSeq(arch, E.xs, conf), conf.cap, worth) /\ arch' = Logged
                                  /\ E.ret = UpdSeqOk(arch, E.xs, conf)
       [] OTHER -> FALSE
  /\ Stored

TUpd ==
  /\ IsOp("upd") /\ UNCHANGED <<worth, conf>>
  /\ hist' = hist \cup ToSet(E.xs)
  /\ arch' = UpdSeq(arch, E.xs, conf)
  /\ Stored

TQuery ==
  /\ IsOp("query") /\ UNCHANGED <<avars, worth>>
  /\ Logged = arch
  /\ E.dom = (\E m \in arch : Dominates(m.v, E.v, conf.dirs))
  /\ E.cont = (\E m \in arch : m.v = E.v)

TEquals ==
  /\ IsOp("equals") /\ UNCHANGED <<avars, worth>>
  /\ E.eq = (Vecs(ToSet(E.other)) = Vecs(arch))
  /\ E.eq2 = E.eq

TraceInit == /\ l = 1 /\ arch = {} /\ hist = {} /\ worth = <<>>
             /\ conf = [kind |-> "none", dirs |-> <<>>, replace |-> TRUE, cap |-> 0]
TraceNext == TNew \/ TIns \/ TPop \/ TUpd \/ TQuery \/ TEquals
\* the specification's invariants, at every recorded step
Props == SubmittedOnly /\ NonDominated /\ NoDuplicates /\ ExactFront /\ (conf.kind # "none" => Capacity)
TraceSpec == TraceInit /\ [][TraceNext /\ Props']_tvars
=============================================================================
