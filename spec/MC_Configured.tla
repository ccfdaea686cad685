--------------------------- MODULE MC_Configured ----------------------------
(* Every option record of a small space, every run it can give.              *)
EXTENDS Configured
CONSTANTS V, N, G
VARIABLES opt, pop, off, best, run
vars == <<opt, pop, off, best, run>>
Vals == 0..V
Reps == {"comma", "plus", "ssworse"}
Opts == [rep : Reps, m : 1..(N + 1), weak : BOOLEAN, crit : {<<<<1, g, 0>>>> : g \in 1..G} \cup {<<<<1, G, 0>>, c>> : c \in {<<4, V, 0>>, <<3, N + 2, 0>>, <<2, 0, 1>>, <<2, 1, 1>>}}]
Fine(o) == (o.rep = "comma" => o.m >= N) /\ (o.rep = "ssworse" => o.m <= N)
Pops == {p \in [1..N -> Vals] : \A i \in 2..N : p[i - 1] >= p[i]}
Init == /\ opt \in {o \in Opts : Fine(o)} /\ pop \in {AsPop(p) : p \in Pops} /\ off = <<>> /\ best = <<>> /\ run = TRUE
Gen == /\ run /\ \E f \in [1..opt.m -> Vals] :
            LET o == AsPop(f) k == WithElite(opt.weak, pop, KeptBy(opt.rep, <<>>, pop, o, 0), 0) b == Append(best, k[1]) IN
            /\ off' = o /\ pop' = AsPop(k) /\ best' = b
            /\ run' = (\A i \in DOMAIN opt.crit : GoesOn(Crit(opt.crit[i], 0), b, N, opt.m, Len(b)))
       /\ UNCHANGED opt
Next == Gen \/ (~run /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Gen)
SizeKept == Len(pop) = N
\* elitist set-ups never lose the best
Monotone == [][(opt.weak \/ opt.rep = "plus") => BestOf(pop', 0) >= BestOf(pop, 0)]_vars
\* a run stops by itself, when its criteria say so and not before
Bounded == Len(best) <= G
Exact == ~run => StopsExactly(opt.crit, best, N, opt.m, 0)
NotBefore == run => \A i \in DOMAIN opt.crit : best = <<>> \/ GoesOn(Crit(opt.crit[i], 0), best, N, opt.m, Len(best))
Ends == <>(~run)
\* selection weights: favour the better, someone can always be chosen
P3 == {p \in [1..3 -> 1..4] : p[1] # p[2] /\ p[2] # p[3] /\ p[1] # p[3]}
Num(p) == [i \in 1..3 |-> <<i, p[i]>>]
Sels == {<<"dettour", <<t, 0>>>> : t \in 1..3} \cup {<<"stochtour", <<t, 0>>>> : t \in 4..8} \cup {<<"ranking", <<q, e>>>> : q \in 9..16, e \in 1..2} \cup {<<"random", <<0, 0>>>>}
ASSUME \A p \in P3, s \in Sels, d \in {0, 1} : LET q == Num(p) w == Weights(s[1], s[2], q, d) IN
  /\ SumSeq(w) > 0 /\ \A i \in 1..3 : w[i] >= 0
  /\ \A i, j \in 1..3 : PBetter(q[i][2], q[j][2], d) => w[i] >= w[j]
ASSUME \A p \in P3 : LET q == Num(p) IN SumSeq(Weights("sharing", <<1>>, q, 0)) = SumSeq(Weights("roulette", <<>>, q, 0))
=============================================================================
