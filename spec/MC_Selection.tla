---------------------------- MODULE MC_Selection ----------------------------
(* Selectors as machines over a small population: sequential (ordered or     *)
(* shuffled), elitist sequential, round robin, stochastic universal          *)
(* sampling with its equally spaced pointers, tournaments with explicit      *)
(* contestants.                                                              *)
EXTENDS Selection
CONSTANTS N, V, Rounds
VARIABLES kind, dir, p, order, at, out, u
vars == <<kind, dir, p, order, at, out, u>>
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Total == SumSeq(Fits(p))
Init == /\ kind \in {"seq", "shuf", "elite", "round", "sus", "tour"} /\ dir \in {0, 1}
        /\ \E f \in [1..N -> 0..V] : p = [i \in 1..N |-> <<i, f[i]>>]
        /\ (kind = "sus" => (SumSeq(Fits(p)) > 0 /\ dir = 0)) /\ order = <<>> /\ at = 0 /\ out = <<>> /\ u = 0
\* preparing a pass over the population
Ok(o) == CASE kind = "seq" -> \A i \in 1..(N - 1) : ~PBetter(p[o[i + 1]][2], p[o[i]][2], dir)
           [] kind = "elite" -> p[o[1]][2] = BestOf(p, dir)
           [] kind = "round" -> o = [i \in 1..N |-> i] [] OTHER -> TRUE
Setup == /\ kind \in {"seq", "shuf", "elite", "round"} /\ at = 0 /\ Len(out) < Rounds * N
         /\ \E o \in Perms(N) : Ok(o) /\ order' = o
         /\ at' = 1 /\ UNCHANGED <<kind, dir, p, out, u>>
\* pointers at u + k * Total / N over slots of width f (all scaled by N)
Slot(x) == CHOOSE i \in 1..N : (\A j \in 1..(i - 1) : N * SumSeq(SubSeq(Fits(p), 1, j)) <= x) /\ N * SumSeq(SubSeq(Fits(p), 1, i)) > x
SetupSus == /\ kind = "sus" /\ at = 0 /\ Len(out) < Rounds * N
            /\ \E s \in 0..(Total - 1) : order' = [k \in 1..N |-> Slot(s + ((k - 1) * Total))]
            /\ at' = 1 /\ UNCHANGED <<kind, dir, p, out, u>>
Pick == /\ at > 0 /\ out' = Append(out, order[at]) /\ at' = (IF at = N THEN 0 ELSE at + 1) /\ UNCHANGED <<kind, dir, p, order, u>>
Tour == /\ kind = "tour" /\ Len(out) < 1
        /\ \E a, b \in 1..N : out' = Append(out, IF PBetter(p[b][2], p[a][2], dir) THEN b ELSE a) /\ u' = <<a, b>>
        /\ UNCHANGED <<kind, dir, p, order, at>>
Next == Setup \/ SetupSus \/ Pick \/ Tour
Spec == Init /\ [][Next]_vars
Pass(k) == SubSeq(out, (k - 1) * N + 1, k * N)
Passes == 1..(Len(out) \div N)
Members == \A i \in DOMAIN out : out[i] \in 1..N
\* every complete pass shows everybody exactly once
EachOnce == kind \in {"seq", "shuf", "elite", "round"} => \A k \in Passes : ToSet(Pass(k)) = 1..N
BestFirst == kind \in {"seq", "elite"} => \A k \in Passes : p[Pass(k)[1]][2] = BestOf(p, dir)
\* universal sampling: expectation rounded down or up, none without fitness
SusExact == kind = "sus" => \A k \in Passes : \A i \in 1..N : LET c == CountIn(i, Pass(k)) IN c * Total >= (N * p[i][2]) - (Total - 1) /\ c * Total <= (N * p[i][2]) + (Total - 1)
TourBest == kind = "tour" => \A i \in DOMAIN out : \A x \in {u[1], u[2]} : ~PBetter(p[x][2], p[out[i]][2], dir)
\* the counting formulas agree with enumeration
Count2 == \A v \in 0..V : TourWins(p, 2, v, dir) = Cardinality({ab \in (1..N) \X (1..N) : (IF PBetter(p[ab[2]][2], p[ab[1]][2], dir) THEN p[ab[2]][2] ELSE p[ab[1]][2]) = v})
=============================================================================
