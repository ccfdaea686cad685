------------------------------ MODULE Breeding ------------------------------
(* Variation applied to a growing list of offspring.                         *)
(* An individual is [g, v]: g[1] says which source individual it was copied  *)
(* from, every later element is the mark left by an operator that changed it *)
(* (100 * tag + the source of the partner, if any); v: its fitness is valid. *)
(* An operator is a record [k, t, m, ops, rates]: a leaf of kind mon, bin,   *)
(* quad or gen3 with a tag t and a mode m (0: changes its arguments and says *)
(* so; 1: does nothing; 2: changes nothing but reports a change), or a       *)
(* container seq / prop of operators with rates in quarters.                 *)
(* State [d, c]: the offspring so far and a cursor, c = Len(d) at the end.   *)
(* src[i]: whether source individual i is valid.  w = [on, r]: when on, only *)
(* behaviours leading to the offspring r are followed (further offspring,    *)
(* which a breeder discards, are not told apart).                            *)
EXTENDS Population
Free == [on |-> FALSE, r |-> <<>>]
Pick(src, w, j) == IF ~w.on \/ j = Len(w.r) + 1 THEN DOMAIN src ELSE IF j > Len(w.r) THEN {1} ELSE {w.r[j].g[1]} \cap (DOMAIN src)
Partner(src, w, j, n) == IF ~w.on THEN DOMAIN src ELSE IF j > Len(w.r) THEN {1} ELSE IF Len(w.r[j].g) > n THEN {w.r[j].g[n + 1] % 100} \cap (DOMAIN src) ELSE {}
Likely(s, w) == ~w.on \/ \A j \in DOMAIN s.d : j <= Len(w.r) => IsPrefix(s.d[j].g, w.r[j].g)
\* the current individual, copied from the source if there is none yet
Deref(s, src, w) == IF s.c < Len(s.d) THEN {s} ELSE {[s EXCEPT !.d = Append(s.d, [g |-> <<i>>, v |-> src[i]])] : i \in Pick(src, w, Len(s.d) + 1)}
Adv(s) == IF s.c < Len(s.d) THEN [s EXCEPT !.c = s.c + 1] ELSE s
Mark(s, j, m, x, w) == IF w.on /\ j > Len(w.r) THEN s ELSE [s EXCEPT !.d[j] = [g |-> (IF m = 0 THEN Append(s.d[j].g, x) ELSE s.d[j].g), v |-> s.d[j].v /\ m = 1]]
Root(s, j) == s.d[j].g[1]
RECURSIVE App(_, _, _, _), SeqFrom(_, _, _, _, _, _), Sweep(_, _, _, _, _)
App(o, s, src, w) == {t \in
  CASE o.k = "mon" -> {Mark(x, x.c + 1, o.m, 100 * o.t, w) : x \in Deref(s, src, w)}
    [] o.k = "bin" -> UNION {IF o.m # 0 THEN {Mark(x, x.c + 1, o.m, 0, w)} ELSE {Mark(x, x.c + 1, 0, 100 * o.t + p, w) : p \in Partner(src, w, x.c + 1, Len(x.d[x.c + 1].g))} : x \in Deref(s, src, w)}
    [] o.k = "quad" -> UNION {{Mark(Mark(y, y.c, o.m, 100 * o.t + Root(y, y.c + 1), w), y.c + 1, o.m, 100 * o.t + Root(y, y.c), w) : y \in Deref(Adv(x), src, w)} : x \in Deref(s, src, w)}
    [] o.k = "gen3" -> UNION {UNION {{Mark(Mark(Mark(z, z.c - 1, o.m, 100 * o.t, w), z.c, o.m, 100 * o.t, w), z.c + 1, o.m, 100 * o.t, w) : z \in Deref(Adv(y), src, w)} : y \in Deref(Adv(x), src, w)} : x \in Deref(s, src, w)}
    [] o.k = "seq" -> SeqFrom(o, 1, s.c, {s}, src, w)
    [] o.k = "prop" -> UNION {App(o.ops[i], s, src, w) : i \in {j \in DOMAIN o.ops : o.rates[j] > 0}}
  : Likely(t, w)}
\* the operators of a sequence, one after the other, each over all individuals from pos on
SeqFrom(o, i, pos, S, src, w) == IF i > Len(o.ops) THEN S ELSE SeqFrom(o, i + 1, pos, UNION {Sweep(o.ops[i], o.rates[i], [s EXCEPT !.c = pos], src, w) : s \in S}, src, w)
Sweep(o, r, s, src, w) ==
  LET A == (IF r > 0 THEN App(o, s, src, w) ELSE {}) \cup (IF r < 4 THEN {s} ELSE {})
      B == {Adv(x) : x \in A}
      F == {x \in B : x.c = Len(x.d)}
  IN F \cup UNION {Sweep(o, r, x, src, w) : x \in B \ F}
\* one step of a breeder, and a whole run up to the wanted number of offspring
Steps(o, s, src, w) == {Adv(x) : x \in App(o, s, src, w)}
RECURSIVE Runs(_, _, _, _, _)
Runs(o, n, S, src, w) == LET F == {s \in S : Len(s.d) >= n} T == UNION {Steps(o, s, src, w) : s \in S \ F} IN
  F \cup (IF T \subseteq S THEN {} ELSE Runs(o, n, T \ S, src, w))
Bred(o, n, src, w) == {SubSeq(s.d, 1, n) : s \in Runs(o, n, {[d |-> <<>>, c |-> 0]}, src, w)}
\* tags an operator may use, and tags of operators that report a change without making one
RECURSIVE Tags(_), Reporting(_)
Tags(o) == IF o.k \in {"seq", "prop"} THEN UNION {Tags(o.ops[i]) : i \in {j \in DOMAIN o.ops : o.rates[j] > 0}} ELSE {o.t}
Reporting(o) == IF o.k \in {"seq", "prop"} THEN \E i \in DOMAIN o.ops : o.rates[i] > 0 /\ Reporting(o.ops[i]) ELSE o.m = 2
\* crossing consecutive pairs, then mutating each: pc, pm in quarters; q: quad leaf, u: mon leaf
Pair(q, pc, a, b) ==
  LET x == IF q.m = 0 THEN [a |-> [g |-> Append(a.g, 100 * q.t + b.g[1]), v |-> FALSE], b |-> [g |-> Append(b.g, 100 * q.t + a.g[1]), v |-> FALSE]]
           ELSE [a |-> [g |-> a.g, v |-> a.v /\ q.m = 1], b |-> [g |-> b.g, v |-> b.v /\ q.m = 1]]
  IN (IF pc > 0 THEN {x} ELSE {}) \cup (IF pc < 4 THEN {[a |-> a, b |-> b]} ELSE {})
Mut(u, pm, a) == LET x == [g |-> (IF u.m = 0 THEN Append(a.g, 100 * u.t) ELSE a.g), v |-> a.v /\ u.m = 1] IN (IF pm > 0 THEN {x} ELSE {}) \cup (IF pm < 4 THEN {a} ELSE {})
Sga(q, pc, u, pm, p, r) == /\ Len(r) = Len(p)
  /\ \A i \in 1..(Len(p) \div 2) : \E z \in Pair(q, pc, p[2 * i - 1], p[2 * i]) : r[2 * i - 1] \in Mut(u, pm, z.a) /\ r[2 * i] \in Mut(u, pm, z.b)
  /\ (Len(p) % 2 = 1 => r[Len(p)] \in Mut(u, pm, p[Len(p)]))
=============================================================================
