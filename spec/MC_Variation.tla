---------------------------- MODULE MC_Variation ----------------------------
(* A pool of individuals under honest operators applied through wrappers,   *)
(* copies and evaluations: what is believed evaluated is truly evaluated,   *)
(* and nothing loses its fitness without a reported change.                 *)
EXTENDS Variation
CONSTANTS NInd, NGen
VARIABLES pool, last
vars == <<pool, last>>
F(g) == (g * 7) % 5
Init == pool = [i \in 1..NInd |-> [g |-> 1, v |-> FALSE, f |-> 0]] /\ last = [ret |-> FALSE, who |-> {}, eval |-> {}]
Apply(kind, S) == \E ret \in BOOLEAN :
  /\ (IF ret THEN \E h \in [S -> 1..NGen] : pool' = [i \in 1..NInd |-> IF i \in S THEN [g |-> h[i], v |-> FALSE, f |-> 0] ELSE pool[i]]
      ELSE pool' = pool)
  /\ last' = [ret |-> ret, who |-> S, eval |-> {}]
Evaluate(i) == ~pool[i].v /\ pool' = [pool EXCEPT ![i] = [g |-> pool[i].g, v |-> TRUE, f |-> F(pool[i].g)]] /\ last' = [ret |-> FALSE, who |-> {}, eval |-> {i}]
Copy(i, j) == pool' = [pool EXCEPT ![i] = pool[j]] /\ last' = [ret |-> FALSE, who |-> {i}, eval |-> {}]
Next == \/ \E i \in 1..NInd : Apply("mon", {i}) \/ Evaluate(i)
        \/ \E i \in 1..NInd : \E j \in (1..NInd) \ {i} : Apply("bin", {i}) \/ Apply("quad", {i, j}) \/ Copy(i, j)
Spec == Init /\ [][Next]_vars
Believed == \A i \in 1..NInd : Truthful(pool[i], F)
Kept == [][\A i \in 1..NInd : (pool[i].v /\ ~pool'[i].v) => (last'.who # {} /\ i \in last'.who)]_vars
\* every wrapped step is an honest step
StepHonest == [][(last'.who # {} /\ ~last'.ret) => \/ pool' = pool \/ \E i, j \in 1..NInd : pool' = [pool EXCEPT ![i] = pool[j]]]_vars
=============================================================================
