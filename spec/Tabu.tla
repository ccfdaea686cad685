-------------------------------- MODULE Tabu --------------------------------
(* Tabu lists and the tabu search iteration.                                 *)
(* d = [kind, size, lo, hi]: kind "sol" and "nbr" are bounded lists whose    *)
(* entries stay until replaced (tenure 0) or for lo updates; kind "index" is *)
(* one counter per move, tenure in lo..hi.                                   *)
EXTENDS Landscape

TabuInit(d) == IF d.kind = "index" THEN [i \in 0..(d.size - 1) |-> 0] ELSE <<>>
\* the possible lists after recording the move i that led to solution x
Record(d, tl, x, i) ==
  IF d.kind = "index"
  THEN IF i < d.size THEN {[tl EXCEPT ![i] = t] : t \in d.lo..d.hi} ELSE {tl}
  ELSE LET e == [what |-> IF d.kind = "sol" THEN x ELSE i, left |-> d.lo]
       IN {IF Len(tl) < d.size THEN Append(tl, e) ELSE Append(Tail(tl), e)}
Elapse(d, tl) ==
  IF d.kind = "index" THEN [i \in DOMAIN tl |-> IF tl[i] > 0 THEN tl[i] - 1 ELSE 0]
  ELSE [k \in DOMAIN tl |-> [tl[k] EXCEPT !.left = IF @ > 0 THEN @ - 1 ELSE 0]]
\* is move i from cur forbidden
Forbidden(d, tl, cur, i) ==
  IF d.kind = "index" THEN i < d.size /\ tl[i] > 0
  ELSE LET w == IF d.kind = "sol" THEN Flip(cur, i) ELSE i
       IN \E k \in DOMAIN tl : tl[k].what = w /\ (d.lo = 0 \/ tl[k].left > 0)

\* moves tabu search may choose between: not tabu, or better than all seen
Open(a, d, tl, cur, asp, M) ==
  {i \in M : ~Forbidden(d, tl, cur, i) \/ (asp # <<>> /\ Better(Fit(a.tab, Flip(cur, i)), asp[1], a.dir))}
TabuSucc(a, d, tl, cur, asp, M) ==
  LET O == Open(a, d, tl, cur, asp, M) IN
  IF O = {} THEN {cur} ELSE ArgBest(a.tab, Around(cur, O), a.dir)
=============================================================================
