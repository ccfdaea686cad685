------------------------------ MODULE Stopping ------------------------------
(* Stopping criteria of the evolutionary algorithms.  A criterion is         *)
(* [kind, a, b, dir]; its state [n, start, steady, best, last]; at each call *)
(* it sees w = [fits, evals, now].                                           *)
EXTENDS Population

BestFit(fs, dir) == RankedF(fs, dir)[1]
\* a is at least as good as b
Reached(a, b, dir) == ~PBetter(b, a, dir)
CInit(n0, now) == [n |-> n0, start |-> now, steady |-> FALSE, best |-> 0, last |-> 0]
CStep(c, s, w) ==
  CASE c.kind \in {"gen", "period"} -> [s EXCEPT !.n = @ + 1]
    [] c.kind = "steady" ->
       LET n == s.n + 1 b == BestFit(w.fits, c.dir) IN
       IF s.steady THEN IF PBetter(b, s.best, c.dir) THEN [s EXCEPT !.n = n, !.best = b, !.last = n] ELSE [s EXCEPT !.n = n]
       ELSE IF n > c.a THEN [s EXCEPT !.n = n, !.steady = TRUE, !.best = b, !.last = n] ELSE [s EXCEPT !.n = n]
    [] OTHER -> s
\* go on? (s: the state after the step)
CGo(c, s, w) ==
  CASE c.kind = "gen" -> s.n < c.a
    [] c.kind = "fit" -> ~Reached(BestFit(w.fits, c.dir), c.a, c.dir)
    [] c.kind = "steady" -> ~(s.steady /\ s.n - s.last > c.b)
    [] c.kind = "evals" -> w.evals < c.a
    [] c.kind \in {"time", "secs"} -> w.now - s.start < c.a
    [] c.kind = "period" -> s.n % c.a # 0
    [] c.kind = "always" -> TRUE
CReset(s) == [s EXCEPT !.n = 0, !.steady = FALSE]

(* ---- combination: go on iff every part would.  The parts are asked in     *)
(* order, each at most once; those after a refusal need not be asked.        *)
RECURSIVE FirstNo(_, _)
FirstNo(ans, i) == IF i > Len(ans) THEN Len(ans) + 1 ELSE IF ~ans[i] THEN i ELSE FirstNo(ans, i + 1)
AllYes(ans) == \A i \in DOMAIN ans : ans[i]
=============================================================================
