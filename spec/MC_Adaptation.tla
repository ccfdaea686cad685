--------------------------- MODULE MC_Adaptation ----------------------------
(* A walk of the centre on a line: parents are drawn within one step of it,   *)
(* ranked and recombined; weights are whole numbers out of One.               *)
EXTENDS Adaptation
CONSTANTS K, R, One, Depth
VARIABLES mean, step, path, parents, fit, n
vars == <<mean, step, path, parents, fit, n>>
W == {w \in [1..K -> 1..One] : SumSeq(w) = One /\ \A i \in 1..(K - 1) : w[i] >= w[i + 1]}
w0 == CHOOSE w \in W : \A v \in W : w[1] <= v[1]                 \* the flattest
Init == mean = 0 /\ step = 4 /\ path = 0 /\ parents = <<>> /\ fit = <<>> /\ n = 0
Orders == {p \in [1..K -> 1..K] : \A i, j \in 1..K : i # j => p[i] # p[j]}
Draw == parents = <<>> /\ n < Depth /\ parents' \in [1..K -> (-R)..R] /\ fit' \in [1..K -> 0..2] /\ UNCHANGED <<mean, step, path, n>>
Ranked(o) == [i \in 1..K |-> parents[o[i]]]
Offset(o) == SumSeq([i \in 1..K |-> w0[i] * Ranked(o)[i]])        \* in parts of One
Learn == parents # <<>> /\ \E o \in Orders : RankedBy(o, fit) /\ LET m == Offset(o) IN
  /\ mean' = mean + m /\ path' = (path + m) \div 2
  /\ step' = (IF Abs(path') > One THEN step + 1 ELSE IF step > 1 THEN step - 1 ELSE 1)
  /\ parents' = <<>> /\ fit' = <<>> /\ n' = n + 1
Next == Draw \/ Learn
Spec == Init /\ [][Next]_vars
\* the centre stays among the parents, whatever the ranking
Hull == parents # <<>> => \A o \in Orders : RankedBy(o, fit) =>
          (\E i \in 1..K : Offset(o) >= One * parents[i]) /\ (\E i \in 1..K : Offset(o) <= One * parents[i])
\* any increasing change of the fitness leaves the possible centres as they were
OnlyRanks == parents # <<>> => {Offset(o) : o \in {p \in Orders : RankedBy(p, fit)}} = {Offset(o) : o \in {p \in Orders : RankedBy(p, [i \in 1..K |-> fit[i] * fit[i] * 3 + 1])}}
\* without ties the order in which the parents are listed does not matter
Unambiguous == (parents # <<>> /\ \A i, j \in 1..K : i # j => fit[i] # fit[j]) => Cardinality({Offset(o) : o \in {p \in Orders : RankedBy(p, fit)}}) = 1
Positive == step >= 1
=============================================================================
