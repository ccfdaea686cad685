------------------------------ MODULE T_EdaRun ------------------------------
(* Recorded estimation-of-distribution runs are runs of EdaRun.  Where the    *)
(* caller's distribution is the one adapted (cur # -1) every estimator must   *)
(* find in it the latest estimate; nothing unevaluated is ever selected from, *)
(* replaced with, judged or returned.                                         *)
EXTENDS EdaRun, TraceBase
VARIABLE own
Evaluated == \A i \in DOMAIN E.ok : E.ok[i] = 1
Same == E.cur \in {-1, dist}
TStart == IsOp("start") /\ Begin(E.pop, IF E.cur = -1 THEN 0 ELSE E.cur, E.judged) /\ own' = E.own
TFirst == /\ ph = "first" /\ IsOp(IF own THEN "first" ELSE "estimate")
          /\ TRUE = (Evaluated /\ Same) /\ First(E.pop, E.id) /\ UNCHANGED own
TSelect == IsOp("select") /\ TRUE = (Evaluated /\ E.had = <<>>) /\ Choose(E.pop, E.sel) /\ UNCHANGED own
TEstimate == IsOp("estimate") /\ TRUE = (Evaluated /\ Same) /\ Estimate(E.pop, E.id) /\ UNCHANGED own
TJudge == IsOp("discont") /\ Judge(E.id, E.r) /\ UNCHANGED own
TDraw == IsOp("sample") /\ Draw(E.id, E.x) /\ UNCHANGED own
TEvaluate == IsOp("evaluate") /\ Evaluate(E.pop, E.off) /\ UNCHANGED own
TReplace == IsOp("replace") /\ TRUE = Evaluated /\ Replace(E.pop, E.off, E.out) /\ UNCHANGED own
TGoOn == IsOp("popcont") /\ TRUE = Evaluated /\ GoOn(E.pop, E.r) /\ UNCHANGED own
TEnd == IsOp("end") /\ TRUE = (Evaluated /\ Same) /\ Finish(E.pop) /\ UNCHANGED own
\* a whole run with the library's operators: same size, evaluated, inside the bounds,
\* never worse than before if parents survive, as many generations as allowed
TWhole == IsOp("whole") /\ UNCHANGED <<vars, own>>
  /\ TRUE = (Evaluated /\ E.size = E.n /\ (\A i \in DOMAIN E.inside : E.inside[i] = 1) /\ (E.keep => E.better) /\ E.done = E.gens)
TraceInit == l = 1 /\ Idle /\ own = FALSE
TraceNext == TStart \/ TFirst \/ TSelect \/ TEstimate \/ TJudge \/ TDraw \/ TEvaluate \/ TReplace \/ TGoOn \/ TEnd \/ TWhole
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, own, l>>
=============================================================================
