------------------------------ MODULE T_MoAlgo ------------------------------
(* Runs of the real algorithms and single calls of the replacements.         *)
EXTENDS MoAlgo, TraceBase
VARIABLES dirs, pb, alg, n, pop, seen, phase
vars == <<dirs, pb, alg, n, pop, seen, phase>>

TNew ==
  /\ IsOp("new")
  /\ dirs' = E.dirs /\ pb' = E.pb /\ alg' = E.alg /\ n' = E.n /\ pop' = <<>> /\ seen' = {} /\ phase' = "init"
\* the initial population was evaluated (submitted genotypes E.xs)
TInit ==
  /\ IsOp("init") /\ phase = "init"
  /\ TrueTo(E.pop, pb)
  /\ [i \in DOMAIN E.pop |-> E.pop[i].x] = E.xs
  /\ pop' = E.pop /\ seen' = ToSet(E.pop) /\ phase' = "run"
  /\ UNCHANGED <<dirs, pb, alg, n>>
TGen ==
  /\ IsOp("gen") /\ phase = "run"
  /\ TrueTo(E.off, pb) /\ TrueTo(E.pop, pb)
  /\ LET all == pop \o E.off
         known == ToSet(all)
     IN CASE alg \in Elitist ->
               /\ Len(E.pop) = n
               /\ ToSet(E.pop) \subseteq known
               /\ NoFrontLost(E.pop, known, dirs) \/ alg = "IBEA"
               /\ E.full => KeepsBy(alg, E.pop, all, n, dirs)
          [] alg = "SPEA2" ->
               /\ E.full => E.pop = E.off
               /\ Len(E.pop) = n
               /\ Len(E.arch) <= E.cap /\ ToSet(E.arch) \subseteq (seen \cup ToSet(E.off))
          [] alg = "SEEA" ->
               /\ E.pop = pop
               /\ ArchiveIs(E.arch, seen \cup ToSet(E.off), dirs)
          [] alg = "ASEEA" -> ArchiveIs(E.arch, seen \cup ToSet(E.off), dirs)
          [] alg = "easy" -> (E.full => E.pop = E.off) /\ Len(E.pop) = n /\ ToSet(E.pop) \subseteq known
  /\ E.full /\ alg # "ASEEA" => Len(E.off) > 0
  \* the variation operators given were applied
  /\ E.always /\ n > 1 /\ alg # "ASEEA" => E.ops > 0
  /\ pop' = E.pop /\ seen' = seen \cup ToSet(E.off)
  /\ UNCHANGED <<dirs, pb, alg, n, phase>>
\* the run ended: exactly as many generations as the continuator granted
TEnd == /\ IsOp("end") /\ phase = "run" /\ E.gens = E.want /\ E.pop = pop
        /\ phase' = "done" /\ UNCHANGED <<dirs, pb, alg, n, pop, seen>>

-----------------------------------------------------------------------------
\* single replacement calls with driver-defined fitness f and diversity d
KeyOf(cmp, r) == IF cmp = "df" THEN <<r.d, r.f>> ELSE <<r.f, r.d>>
TElit ==
  /\ IsOp("elit") /\ UNCHANGED vars
  /\ E.left = 0
  /\ LET all == E.par \o E.off IN
     KeepsBest(E.out, all, [i \in DOMAIN all |-> KeyOf(E.cmp, all[i])], Len(E.par), LexLess2)
  \* best first
  /\ \A i \in 1..(Len(E.out) - 1) : ~LexLess2(KeyOf(E.cmp, E.out[i]), KeyOf(E.cmp, E.out[i + 1]))
TEnv ==
  /\ IsOp("env") /\ UNCHANGED vars
  /\ E.left = 0
  /\ LET all == E.par \o E.off IN
     /\ Len(E.out) = Len(E.par) /\ MultiIn(E.out, all)
     /\ CanReach(all, DOMAIN all, [i \in DOMAIN all |-> all[i].f], [i \in DOMAIN all |-> all[i].d], E.out, Len(E.par), E.kind)
\* a run of E.g generations of which only the evaluations and the end are seen
TLong ==
  /\ IsOp("long") /\ phase = "run" /\ UNCHANGED <<dirs, pb, alg, n, pop, seen>> /\ phase' = "done"
  /\ TrueTo(E.off, pb) /\ TrueTo(E.pop, pb)
  /\ LET all == seen \cup ToSet(E.off) IN
     /\ ToSet(E.pop) \cup ToSet(E.arch) \subseteq all
     /\ alg # "ASEEA" => Len(E.pop) = n /\ E.evals = n * (E.g + 1)
     /\ alg \in {"SEEA", "ASEEA"} => ArchiveIs(E.arch, all, dirs)
TSize == IsOp("sizechange") /\ UNCHANGED vars /\ E.thrown /\ E.gens = 0
\* SPEA2's truncation: again and again, the one whose nearest (then second nearest, ...) neighbour is closest leaves
Apart(u, v, how) == LET a == IF u[1] > v[1] THEN u[1] - v[1] ELSE v[1] - u[1]
                      b == IF u[2] > v[2] THEN u[2] - v[2] ELSE v[2] - u[2]
                  IN IF how = "man" THEN a + b ELSE a * a + b * b
Truncations(all, p, how) ==
  LET gap == [x \in DOMAIN all |-> [y \in DOMAIN all |-> Apart(all[x].v, all[y].v, how)]]
      vals == {gap[x][y] : x \in DOMAIN all, y \in DOMAIN all}
      Cnt(x, S, v) == Cardinality({y \in S \ {x} : gap[x][y] = v})
      Closer(c, x, y) == \E v \in vals : c[x][v] > c[y][v] /\ \A u \in vals : u < v => c[x][u] = c[y][u]
      Leave(S) == LET c == [x \in S |-> [v \in vals |-> Cnt(x, S, v)]] IN {S \ {x} : x \in {z \in S : \A y \in S : ~Closer(c, y, z)}}
      RECURSIVE Down(_, _)
      Down(SS, k) == IF k = 0 THEN SS ELSE Down(UNION {Leave(S) : S \in SS}, k - 1)
  IN Down({DOMAIN all}, p)
\* SPEA2's archive: filled with the best by fitness plus diversity, then of constant size
TSpea2 ==
  /\ IsOp("spea2") /\ UNCHANGED vars
  /\ LET a == Len(E.arch)
         key == [i \in DOMAIN E.pop |-> <<4 * E.pop[i].f + E.pop[i].d, 0>>]
     IN IF a < E.cap
        THEN LET k == Min({Len(E.pop), E.cap - a}) IN
             /\ Len(E.out) = a + k /\ SubSeq(E.out, 1, a) = E.arch
             /\ KeepsBest(SubSeq(E.out, a + 1, a + k), E.pop, key, k, LexLess2)
        ELSE /\ Len(E.out) = E.cap /\ MultiIn(E.out, E.arch \o E.pop)
             /\ (\A i \in DOMAIN E.arch : E.arch[i].f = 0) =>
                  LET new == SelectSeq(E.pop, LAMBDA x : x.f = 0)
                      all == E.arch \o new
                  IN \E S \in Truncations(all, Len(new), E.dist) : {all[k].id : k \in S} = {E.out[k].id : k \in DOMAIN E.out}
TGenl == IsOp("genl") /\ UNCHANGED vars /\ E.out = E.off

TraceInit == l = 1 /\ dirs = <<>> /\ pb = <<>> /\ alg = "" /\ n = 0 /\ pop = <<>> /\ seen = {} /\ phase = "none"
TraceNext == TNew \/ TInit \/ TGen \/ TEnd \/ TElit \/ TEnv \/ TGenl \/ TLong \/ TSize \/ TSpea2
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
