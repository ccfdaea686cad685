---------------------------- MODULE MC_Stopping -----------------------------
(* Runs under each criterion against arbitrary histories of best fitness,    *)
(* evaluations and time; a run ends at the first refusal.                    *)
EXTENDS Stopping
CONSTANTS A, B, V, T
VARIABLES c, s, w, hist, go, k
vars == <<c, s, w, hist, go, k>>
W0 == [fits |-> <<0>>, evals |-> 0, now |-> 0]
Init == /\ c \in [kind : {"gen", "fit", "steady", "evals", "time", "period"}, a : 1..A, b : 0..B, dir : {0, 1}]
        /\ s = CInit(0, 0) /\ w = W0 /\ hist = <<>> /\ go = TRUE /\ k = 0
Look == /\ go /\ k < T
        /\ \E f \in (IF c.kind \in {"fit", "steady"} THEN 0..V ELSE {0}), e \in (IF c.kind = "evals" THEN 0..2 ELSE {0}), t \in (IF c.kind = "time" THEN 0..2 ELSE {0}) :
             LET v == [fits |-> <<f>>, evals |-> w.evals + e, now |-> w.now + t] z == CStep(c, s, v) IN
             /\ w' = v /\ s' = z /\ go' = CGo(c, z, v) /\ hist' = Append(hist, v)
        /\ k' = k + 1 /\ UNCHANGED c
Next == Look
Spec == Init /\ [][Next]_vars
H == Len(hist)
F(i) == hist[i].fits[1]
GenExact == c.kind = "gen" => (go <=> H < c.a)
PeriodExact == c.kind = "period" => (go <=> H < c.a)
FitExact == c.kind = "fit" => (go <=> \A i \in 1..H : PBetter(c.a, F(i), c.dir))
EvalExact == c.kind = "evals" => (go <=> w.evals < c.a \/ H = 0)
TimeExact == c.kind = "time" => (go <=> w.now < c.a \/ H = 0)
\* a steady criterion refuses only after the minimum, and exactly when b + 1 calls brought no improvement on the best since
BestSince(i, j) == IF c.dir = 0 THEN Max({F(x) : x \in i..j}) ELSE Min({F(x) : x \in i..j})
LastImp == LET S == {i \in (c.a + 1)..H : i = c.a + 1 \/ PBetter(F(i), BestSince(c.a + 1, i - 1), c.dir)} IN IF S = {} THEN 0 ELSE Max(S)
SteadyExact == (c.kind = "steady" /\ H > c.a) => (go <=> H - LastImp <= c.b)
SteadyMin == (c.kind = "steady" /\ H <= c.a) => go
=============================================================================
