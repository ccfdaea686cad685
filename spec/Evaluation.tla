----------------------------- MODULE Evaluation -----------------------------
(* Evaluation: individuals are <<x, f>> with f = Inv before evaluation.  A   *)
(* wrapper [kind, max] around the objective keeps [calls, best, start].      *)
EXTENDS Population
Inv == -1000000001
Nan == -2147483001
EInit(now) == [calls |-> 0, best |-> <<0, Inv>>, start |-> now]
\* does the wrapper let the call through?
Through(w, s, x, now) ==
  /\ (x[2] = Inv \/ w.kind \in {"keep", "dump", "print"})
  /\ (w.kind = "time" => now - s.start < w.max) /\ (w.kind = "utime" => w.max > 0)
\* the individual afterwards; y: what the objective answers for it
After(w, s, x, y, now) == IF Through(w, s, x, now) THEN <<x[1], y>> ELSE x
Calls(w, s, x, now) == s.calls + (IF Through(w, s, x, now) THEN 1 ELSE 0)
\* does the call end in an exception?
Throws(w, s, x, y, now) ==
  CASE w.kind = "budget" -> x[2] = Inv /\ s.calls + 1 >= w.max
    [] w.kind = "time" -> x[2] = Inv /\ now - s.start >= w.max
    [] w.kind = "utime" -> x[2] = Inv /\ w.max = 0
    [] w.kind = "nan" -> x[2] = Inv /\ y = Nan
    [] OTHER -> FALSE
Counts == {"count", "budget", "time", "utime"}
NewBest(s, z, dir) == s.best[2] = Inv \/ PBetter(z[2], s.best[2], dir)
=============================================================================
