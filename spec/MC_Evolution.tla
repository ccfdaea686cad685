---------------------------- MODULE MC_Evolution ----------------------------
(* Every run of a generational algorithm with honest operators: whatever is  *)
(* bred and replaced, the population is truthful when the algorithm asks     *)
(* whether to go on, keeps its size, and runs at least one generation.       *)
EXTENDS Evolution
CONSTANTS X, N, K, MaxGen, M
VARIABLES pop, off, phase, gen
vars == <<pop, off, phase, gen>>
G == {<<x>> : x \in 0..X}
Seqs(S, k) == [1..k -> S]
Unev == [g : G, f : {NoFit}]
Init == pop \in Seqs(Unev \cup {[g |-> g, f |-> Objective(g, M, 0)] : g \in G}, N) /\ off = <<>> /\ phase = "init" /\ gen = 0
EvalPop == phase = "init" /\ pop' = Evaluated(pop, M, 0) /\ phase' = "breed" /\ UNCHANGED <<off, gen>>
\* an offspring is an unchanged copy, or a modified one that lost its fitness
Breed == phase = "breed" /\ off' \in Seqs(ToSet(pop) \cup Unev, K) /\ phase' = "eval" /\ UNCHANGED <<pop, gen>>
EvalOff == phase = "eval" /\ off' = Evaluated(off, M, 0) /\ phase' = "replace" /\ UNCHANGED <<pop, gen>>
Replace == phase = "replace" /\ pop' \in {q \in Seqs(ToSet(pop) \cup ToSet(off), N) : Replaces(q, pop, off)} /\ phase' = "ask" /\ gen' = gen + 1 /\ UNCHANGED off
Ask == phase = "ask" /\ phase' \in {"end"} \cup (IF gen < MaxGen THEN {"breed"} ELSE {}) /\ off' = <<>> /\ UNCHANGED <<pop, gen>>
Next == EvalPop \/ Breed \/ EvalOff \/ Replace \/ Ask
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
TruePop == phase # "init" => Truthful(pop, M, 0)
HonestOff == Honest(off, M, 0)
SizeKept == Len(pop) = N
OneGeneration == phase \in {"ask", "end"} => gen >= 1
\* the marks of the history operators: what each algorithm may do is possible
\* and its rates are respected
MarkSeqs == {<<>>} \cup {<<s>> : s \in {1000, 2000}} \cup {<<s, t>> : s \in {1000, 2000}, t \in {1000, 2000}}
ASSUME \A mk \in MarkSeqs : SGAMarks(mk, 0, 0, TRUE) <=> mk = <<>>
ASSUME \A mk \in MarkSeqs : SGAMarks(mk, 1, 1, TRUE) <=> mk = <<2000, 1000>>
ASSUME \A mk \in MarkSeqs : SGAMarks(mk, 1, 0, FALSE) <=> mk = <<>>
ASSUME \A mk \in MarkSeqs : FastMarks(mk, 0, 1) <=> mk = <<1000>>
ASSUME \A mk \in MarkSeqs : FastMarks(mk, 1, 0) <=> mk = <<2000>>
ASSUME \A mk \in MarkSeqs : FastMarks(mk, 2, 2) <=> mk \in {<<1000>>, <<2000>>, <<2000, 1000>>}
Ends == <>(phase = "end")
=============================================================================
