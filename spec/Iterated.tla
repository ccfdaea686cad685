------------------------------ MODULE Iterated ------------------------------
(* Iterated local search and variable neighbourhood search.                  *)
EXTENDS Landscape

\* acceptance criteria: does new replace old
Crit(kind, a, old, new) ==
  CASE kind = "always" -> TRUE
    [] kind = "better" -> Better(Fit(a.tab, new), Fit(a.tab, old), a.dir)
    [] kind = "noworse" -> ~Better(Fit(a.tab, old), Fit(a.tab, new), a.dir)

(* Order in which m heuristics are visited.  A selection s = [path, pos]:    *)
(* path = the heuristics shown so far in this pass, pos = place in it.       *)
SelStart(kind, m) == IF kind = "forward" THEN {0} ELSE IF kind = "backward" THEN {m - 1} ELSE 0..(m - 1)
SelInit(i) == [path |-> <<i>>, pos |-> 1]
SelLast(s, m) == s.pos = m
SelMore(s, m, cycle) == cycle \/ ~SelLast(s, m)
\* heuristics that may come next
SelNext(kind, m, s) ==
  IF s.pos < Len(s.path) THEN {s.path[s.pos + 1]}
  ELSE IF s.pos = m THEN {s.path[1]}
  ELSE IF kind = "forward" THEN {s.path[s.pos] + 1}
  ELSE IF kind = "backward" THEN {s.path[s.pos] - 1}
  ELSE 0..(m - 1) \ ToSet(s.path)
SelGo(s, m, i) ==
  IF s.pos = m THEN [s EXCEPT !.pos = 1]
  ELSE IF s.pos < Len(s.path) THEN [s EXCEPT !.pos = s.pos + 1]
  ELSE [path |-> Append(s.path, i), pos |-> s.pos + 1]

(* Restart perturbation: counts the iterations since the last accepted one   *)
(* (the accepting iteration included) or the last restart.                   *)
CountStep(n, accepted) == IF accepted THEN 1 ELSE n + 1
=============================================================================
