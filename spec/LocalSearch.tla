---------------------------- MODULE LocalSearch -----------------------------
(* One iteration of each local search, on a landscape a = [n, tab, dir].     *)
(* M is the set of moves the neighbourhood offers in this iteration (all of  *)
(* them, or a random sample); Succ is the set of solutions the iteration may *)
(* end in, Took says whether the iteration is an accepted move.              *)
EXTENDS Landscape

Climbers == {"simple", "first", "rbest"}
Walks == {"neutral", "rwalk", "rneutral", "rsearch"}

Acceptable(a, kind, rule, cur, S) ==
  LET ok(y) == CASE kind \in Climbers -> Admits(rule, Fit(a.tab, y), Fit(a.tab, cur), a.dir)
                 [] kind = "neutral" -> Admits("eq", Fit(a.tab, y), Fit(a.tab, cur), a.dir)
                 [] kind = "rneutral" -> Fit(a.tab, y) = Fit(a.tab, cur)
                 [] OTHER -> TRUE
  IN {y \in S : ok(y)}

Took(a, kind, rule, cur, M) == kind = "rsearch" \/ Acceptable(a, kind, rule, cur, Around(cur, M)) # {}

Succ(a, kind, rule, cur, M) ==
  LET S == Around(cur, M)
      A == Acceptable(a, kind, rule, cur, S)
  IN CASE kind = "rsearch" -> 0..(Pow2(a.n) - 1)
       [] A = {} -> {cur}
       [] kind \in {"simple", "rbest", "neutral"} -> ArgBest(a.tab, S, a.dir)
       [] OTHER -> A

\* in an ordered neighbourhood the first improvement is the lowest move
FirstInOrder(a, rule, cur) ==
  LET I == {i \in Moves(a.n) : Admits(rule, Fit(a.tab, Flip(cur, i)), Fit(a.tab, cur), a.dir)}
  IN IF I = {} THEN cur ELSE Flip(cur, Min(I))

\* the search goes on by itself after an iteration (k iterations done)
GoesOn(kind, took, k, limit, always) ==
  CASE kind \in {"simple", "rbest"} -> took
    [] kind = "first" -> took \/ always
    [] kind \in {"neutral", "rneutral"} -> k < limit /\ took
    [] kind = "rwalk" -> took
    [] kind = "rsearch" -> k < limit
    [] kind = "mh" -> k < limit
    [] OTHER -> TRUE

------------------------------------------------------------------------------
(* Annealing: one neighbour is tried.  The temperature is in units of 1/TS;  *)
(* a loss of d at temperature t is out of reach when d / t >= 40 (the        *)
(* probability exp(-40) is below what the generator can draw).               *)
TS == 65536
AnnealMay(d, t) == t > 0 /\ (t >= d * TS \/ (d * TS) \div t < 40)
\* d = loss in fitness (0: equal, negative: gain)
AnnealNext(cur, y, d, t) == IF d < 0 THEN {y} ELSE IF d = 0 THEN (IF t > 0 THEN {y} ELSE {cur, y})
                            ELSE IF AnnealMay(d, t) THEN {cur, y} ELSE {cur}
\* Metropolis-Hastings ratio acceptance, non-negative fitness values
RatioNext(a, cur, y) ==
  LET u == Fit(a.tab, cur) v == Fit(a.tab, y) IN
  IF Better(v, u, a.dir) THEN {y}
  ELSE IF u = v THEN (IF u > 0 THEN {y} ELSE {cur, y})
  ELSE IF u = 0 \/ v = 0 THEN {cur} ELSE {cur, y}
Loss(a, cur, y) == IF a.dir = 0 THEN Fit(a.tab, cur) - Fit(a.tab, y) ELSE Fit(a.tab, y) - Fit(a.tab, cur)

(* Cooling schedules.  c = [kind, num, den, ...], s = [t, tries, moves, idle] *)
Scale(c, t) == (t * c.num) \div c.den
CoolInit(c) == [t |-> c.init, tries |-> 0, moves |-> 0, idle |-> 0]
CoolStep(c, s, accepted) ==
  IF c.kind = "simple"
  THEN IF s.tries >= c.span THEN [s EXCEPT !.t = Scale(c, s.t), !.tries = 0] ELSE [s EXCEPT !.tries = s.tries + 1]
  ELSE LET tr == s.tries + 1
           mv == s.moves + (IF accepted THEN 1 ELSE 0)
       IN IF tr >= c.span \/ mv >= c.maxmoves
          THEN [t |-> Scale(c, s.t), tries |-> 0, moves |-> 0, idle |-> IF mv = 0 THEN s.idle + 1 ELSE 0]
          ELSE [s EXCEPT !.tries = tr, !.moves = mv]
CoolGoesOn(c, s) == IF c.kind = "simple" THEN s.t > c.final ELSE s.idle <= c.maxidle
=============================================================================
