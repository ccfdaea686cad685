----------------------------- MODULE Variation ------------------------------
(* The contract between variation operators and whoever applies them.       *)
(* An operator alters the genotypes of its arguments and reports whether it *)
(* did; the report may err on the side of "changed", never on the side of   *)
(* "unchanged".  Whoever applies the operator marks every argument it may   *)
(* alter as not evaluated when, and only when, a change was reported.       *)
(* An individual is [g |-> genotype, v |-> evaluated?, f |-> fitness].      *)
EXTENDS Common
Alterable(kind) == IF kind = "quad" THEN {1, 2} ELSE {1}
\* what an operator alone may do to its arguments
Honest(kind, before, after, ret) ==
  /\ \A i \in DOMAIN before : (i \notin Alterable(kind)) => after[i] = before[i]
  /\ (~ret => \A i \in DOMAIN before : after[i] = before[i])
\* what an operator applied by a wrapper must do
Wrapped(kind, before, after, ret) ==
  /\ \A i \in DOMAIN before : (i \notin Alterable(kind)) => after[i] = before[i]
  /\ (~ret => after = before)
  /\ (ret => \A i \in Alterable(kind) : ~after[i].v)
\* no individual is believed to have a fitness it does not have
Truthful(x, True(_)) == x.v => x.f = True(x.g)
=============================================================================
