--------------------------- MODULE MC_Checkpoint ----------------------------
(* The checkpoint as it works through its observers, one call at a time, for *)
(* every registration and every sequence of answers of the criteria; each    *)
(* statistic holds the generation it saw and each monitor shows it.          *)
EXTENDS Checkpoint
CONSTANTS R, Gens, Every
VARIABLES reg, gen, ph, ix, log, ans, stat, shown, done, nfinal, fires
vars == <<reg, gen, ph, ix, log, ans, stat, shown, done, nfinal, fires>>
Init == /\ reg \in {r \in [1..5 -> 0..R] : r[5] >= 1} /\ gen = 1 /\ ph = 1 /\ ix = 1 /\ log = <<>> /\ ans = <<>>
        /\ stat = 0 /\ shown = <<>> /\ done = FALSE /\ nfinal = 0 /\ fires = {}
\* one observer is called
Call == /\ ~done /\ ph <= 5 /\ ix <= reg[ph]
        /\ log' = Append(log, <<ph, ix, 1>>) /\ ix' = ix + 1
        /\ (IF ph = 5 THEN \E b \in BOOLEAN : ans' = Append(ans, b) ELSE ans' = ans)
        /\ stat' = (IF ph \in {1, 2} THEN gen ELSE stat)
        /\ shown' = (IF ph = 4 THEN Append(shown, <<gen, stat>>) ELSE shown)
        /\ fires' = (IF ph = 3 /\ ix = 1 /\ gen % Every = 0 THEN fires \cup {gen} ELSE fires)
        /\ UNCHANGED <<reg, gen, ph, done, nfinal>>
Phase == ~done /\ ph <= 5 /\ ix > reg[ph] /\ ph' = ph + 1 /\ ix' = 1 /\ UNCHANGED <<reg, gen, log, ans, stat, shown, done, nfinal, fires>>
Yes == \A i \in DOMAIN ans : ans[i]
GoOn == /\ ~done /\ ph = 6 /\ Yes /\ gen < Gens /\ gen' = gen + 1 /\ ph' = 1 /\ ix' = 1 /\ log' = <<>> /\ ans' = <<>> /\ UNCHANGED <<reg, stat, shown, done, nfinal, fires>>
RECURSIVE FinalLog(_)
FinalLog(c) == IF c > 4 THEN <<>> ELSE [i \in 1..reg[c] |-> <<10 + c, i, 1>>] \o FinalLog(c + 1)
Stop == ~done /\ ph = 6 /\ ~Yes /\ log' = log \o FinalLog(1) /\ done' = TRUE /\ nfinal' = nfinal + 1 /\ UNCHANGED <<reg, gen, ph, ix, ans, stat, shown, fires>>
Next == Call \/ Phase \/ GoOn \/ Stop
Spec == Init /\ [][Next]_vars
Conform == (done \/ (ph = 6 /\ Yes)) => CallOk(log, reg, ans, ~done)
Fresh == (reg[1] + reg[2] > 0) => \A i \in DOMAIN shown : shown[i][1] = shown[i][2]
FinalOnce == nfinal <= 1 /\ (done => nfinal = 1)
Periodic == (ph > 3 /\ reg[3] > 0) => fires = FiresAt(0, gen, Every)
=============================================================================
