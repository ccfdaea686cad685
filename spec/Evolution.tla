----------------------------- MODULE Evolution ------------------------------
(* Generational evolutionary algorithms.  An individual is a genotype g (a   *)
(* sequence of naturals) and a fitness f, NoFit when it must be evaluated.   *)
(* A generation is breed, evaluate, replace, ask whether to continue; how    *)
(* parents are chosen, varied and replaced is free, what every generation    *)
(* guarantees is not.                                                        *)
EXTENDS Common
NoFit == -1
\* the objective function, which may drift with time t
Objective(g, m, t) == (SumSeq([i \in DOMAIN g |-> i * g[i]]) + t) % m
Genos(p) == [i \in DOMAIN p |-> p[i].g]
\* every individual is evaluated, and with the value its genotype deserves
Truthful(p, m, t) == \A i \in DOMAIN p : p[i].f = Objective(p[i].g, m, t)
\* evaluated individuals tell the truth, others have no fitness
Honest(p, m, t) == \A i \in DOMAIN p : p[i].f \in {NoFit, Objective(p[i].g, m, t)}
Evaluated(p, m, t) == [i \in DOMAIN p |-> [g |-> p[i].g, f |-> Objective(p[i].g, m, t)]]
\* what a replacement may produce
Replaces(new, par, off) == Len(new) = Len(par) /\ MultiIn(new, par \o off)

-----------------------------------------------------------------------------
(* Individuals that carry their history: an identifier, then one stamp per   *)
(* variation, crossovers stamped in Cross, mutations in Mut.                 *)
IsCross(s) == s >= 2000
IsMut(s) == s >= 1000 /\ s < 2000
Marks(new, old) == SubSeq(new, Len(old) + 1, Len(new))
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
CrossOf(mk) == SelectSeq(mk, IsCross)
MutOf(mk) == SelectSeq(mk, IsMut)
\* one stage of the simple genetic algorithm: optional crossover then optional
\* mutation (rates: 0 never, 1 always, 2 sometimes)
May(rate, seen) == CASE rate = 0 -> ~seen [] rate = 1 -> seen [] OTHER -> TRUE
SGAMarks(mk, crate, mrate, paired) ==
  /\ Len(mk) <= 2 /\ Len(CrossOf(mk)) <= 1 /\ Len(MutOf(mk)) <= 1 /\ mk = CrossOf(mk) \o MutOf(mk)
  /\ IF paired THEN May(crate, CrossOf(mk) # <<>>) ELSE CrossOf(mk) = <<>>
  /\ May(mrate, MutOf(mk) # <<>>)
\* the whole generation
Stamps(p) == UNION {ToSet(p[i].g) : i \in DOMAIN p}
SGAStep(new, par, crate, mrate) ==
  LET n == Len(par)
      old == Stamps(par)
      fresh(i) == {s \in ToSet(new[i].g) \ old : IsCross(s)}
  IN /\ Len(new) = n
     /\ \A i \in 1..n : \E p \in 1..n :
          /\ Prefix(par[p].g, new[i].g)
          /\ SGAMarks(Marks(new[i].g, par[p].g), crate, mrate, i <= 2 * (n \div 2))
     \* crossover changes both members of a pair, and pairs are disjoint
     /\ \A j \in 1..(n \div 2) : fresh(2*j - 1) = fresh(2*j)
     /\ \A i, k \in 1..n : (i - 1) \div 2 # (k - 1) \div 2 => fresh(i) \cap fresh(k) = {}
\* one offspring of the two-branch algorithm: crossed, one child kept and then
\* possibly mutated, or mutated only
FastMarks(mk, crate, mrate) ==
  /\ Len(mk) <= 2 /\ Len(CrossOf(mk)) <= 1 /\ Len(MutOf(mk)) <= 1 /\ mk = CrossOf(mk) \o MutOf(mk)
  /\ May(crate, CrossOf(mk) # <<>>)
  /\ IF CrossOf(mk) # <<>> THEN May(mrate, MutOf(mk) # <<>>) ELSE MutOf(mk) # <<>>
FastStep(new, par, n, crate, mrate) ==
  /\ Len(new) = n
  /\ \A i \in DOMAIN new : \E p \in DOMAIN par : Prefix(par[p].g, new[i].g) /\ FastMarks(Marks(new[i].g, par[p].g), crate, mrate)
\* one cell of the cellular algorithm keeps its occupant or takes a child, that
\* is crossed and mutated once
CellStep(new, par, best, min) ==
  /\ Len(new) = Len(par)
  /\ \A i \in DOMAIN new :
       /\ new[i] = par[i]
          \/ \E q \in ToSet(par) \cup ToSet(new) :
               /\ Prefix(q.g, new[i].g) /\ Len(new[i].g) = Len(q.g) + 2
               /\ IsCross(new[i].g[Len(q.g) + 1]) /\ IsMut(new[i].g[Len(q.g) + 2])
       /\ best => (IF min THEN new[i].f <= par[i].f ELSE new[i].f >= par[i].f)
=============================================================================
