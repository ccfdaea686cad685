------------------------------ MODULE T_Jobs ------------------------------
EXTENDS ParallelApply, Assignment, TraceBase
SetOf(s) == {s[k] : k \in 1 .. Len(s)}
VARIABLES kind, gone, runs, reset, orig, last, done, stopping, aborted, packet
vars == <<n, w, todo, busy, over, workers, occupied, given, allowed, kind, gone, runs, reset, orig, last, done, stopping, aborted, packet>>
jvars == <<kind, gone, runs, reset, orig, last, done, stopping, aborted, packet>>
TNew == /\ IsOp("new") /\ kind' = E.kind /\ gone' = {} /\ runs' = E.runs /\ reset' = E.reset /\ orig' = E.orig
        /\ last' = [v \in SetOf(E.ws) |-> E.orig] /\ done' = <<>> /\ stopping' = FALSE /\ aborted' = FALSE /\ packet' = E.packet
        /\ Setup(SetOf(E.ws), IF E.how = "stat" \/ (E.kind = "multi" /\ E.how \in {"stat-world", "stat-vector", "stat-range", "stat-rest", "stat-unique"}) THEN E.runs ELSE -1)
        /\ n' = 0 /\ w' = 1 /\ todo' = {} /\ busy' = {} /\ over' = TRUE
\* ---- applying a function to a table
TApply == IsOp("apply") /\ ~stopping /\ Begin(E.n, E.w) /\ UNCHANGED <<avars, jvars>>
TIn == IsOp("in") /\ E.t \in workers \ gone /\ Enter(E.i, E.t) /\ UNCHANGED <<avars, jvars>>
TOut == IsOp("out") /\ Leave(E.i, E.t) /\ UNCHANGED <<avars, jvars>>
TEnd == /\ IsOp("end") /\ Finish /\ UNCHANGED <<avars, jvars>>
        /\ E.ids = [k \in 1 .. n |-> k] /\ E.marks = [k \in 1 .. n |-> 1] /\ E.text
        /\ E.vals = [k \in 1 .. n |-> 2 * E.was[k] + 1]
\* the master fails in the middle: what was handed out is completed and stored, the rest untouched
TAbort == /\ IsOp("abort") /\ kind = "throw" /\ ~over /\ busy = {} /\ over' = TRUE /\ aborted' = TRUE
          /\ E.ids = [k \in 1 .. n |-> k] /\ E.free = Cardinality(workers)
          /\ E.marks = [k \in 1 .. n |-> IF k \in todo THEN 0 ELSE 1]
          /\ UNCHANGED <<n, w, todo, busy, avars, kind, gone, runs, reset, orig, last, done, stopping, packet>>
TStop == IsOp("stop") /\ over /\ ~stopping /\ stopping' = TRUE /\ UNCHANGED <<pvars, avars, kind, gone, runs, reset, orig, last, done, aborted, packet>>
\* a worker leaves: once, idle, when there is nothing left for it to do; in a
\* lasting job, when the master is through with it
TExit == /\ IsOp("exit") /\ E.t \in workers \ gone /\ gone' = gone \cup {E.t}
         /\ \A b \in busy : b[2] # E.t
         /\ TRUE = (CASE kind \in {"apply", "popeval"} -> stopping
                      [] kind = "multi" -> Len(done) + Cardinality({t \in workers \ gone : t # E.t}) >= runs
                      [] kind = "throw" -> TRUE
                      [] kind = "roles" -> TRUE
                      [] OTHER -> Cardinality(todo) <= packet * Cardinality({t \in workers \ gone : t # E.t}))
         /\ UNCHANGED <<pvars, avars, kind, runs, reset, orig, last, done, stopping, aborted, packet>>
\* ---- independent runs
TSeed == IsOp("seed") /\ kind = "multi" /\ E.t \in workers \ gone /\ (E.want = -1 \/ E.got = E.want) /\ UNCHANGED vars
TRun == /\ IsOp("run") /\ kind = "multi" /\ E.t \in workers \ gone /\ Len(done) < runs /\ E.evald
        /\ E.from = (IF reset = "orig" THEN orig ELSE last[E.t])
        /\ TRUE = (\A k \in 1 .. Len(done) : done[k].tag # E.tag /\ done[k].gens = E.gens)
        /\ last' = [last EXCEPT ![E.t] = E.to]
        /\ done' = Append(done, [tag |-> E.tag, best |-> E.best, gens |-> E.gens, t |-> E.t])
        /\ UNCHANGED <<pvars, avars, kind, gone, runs, reset, orig, stopping, aborted, packet>>
TBests == /\ IsOp("bests") /\ kind = "multi" /\ Len(done) = runs /\ Len(E.tags) = runs /\ Len(E.vals) = runs
          /\ TRUE = (\A k \in 1 .. runs : \E j \in 1 .. runs : E.tags[j] = done[k].tag /\ E.vals[j] = done[k].best)
          /\ TRUE = (allowed = -1 \/ \A v \in workers : LET c == Cardinality({k \in 1 .. runs : done[k].t = v}) IN c \in {Share, Share + (IF Extra > 0 THEN 1 ELSE 0)})
          /\ UNCHANGED vars
\* everybody has left, and no message is left behind
TOver == /\ IsOp("over") /\ ~E.stuck /\ E.died = "" /\ E.left = 0 /\ stopping /\ gone = workers
         /\ TRUE = (kind = "throw" \/ todo = {}) /\ UNCHANGED vars
\* ---- strategies alone
TGet == /\ IsOp("get") /\ kind = "assign"
        /\ (IF E.w = -1 THEN Nobody ELSE Serve(E.w)) /\ UNCHANGED <<pvars, jvars>>
TConfirm == IsOp("confirm") /\ Confirm(E.w) /\ UNCHANGED <<pvars, jvars>>
TIdles == IsOp("idles") /\ SetOf(E.ws) = workers \ occupied /\ Len(E.ws) = E.n /\ E.n = Cardinality(workers \ occupied) /\ UNCHANGED vars
TReinit == IsOp("reinit") /\ Renew(E.runs) /\ UNCHANGED <<pvars, jvars>>
TraceInit == /\ l = 1 /\ n = 0 /\ w = 1 /\ todo = {} /\ busy = {} /\ over = TRUE
             /\ workers = {} /\ occupied = {} /\ given = <<>> /\ allowed = -1
             /\ kind = "" /\ gone = {} /\ runs = 0 /\ reset = "" /\ orig = <<>> /\ last = <<>> /\ done = <<>> /\ stopping = FALSE /\ aborted = FALSE /\ packet = 1
TraceNext == TNew \/ TApply \/ TIn \/ TOut \/ TEnd \/ TAbort \/ TStop \/ TExit \/ TSeed \/ TRun \/ TBests \/ TOver \/ TGet \/ TConfirm \/ TIdles \/ TReinit
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
===========================================================================
