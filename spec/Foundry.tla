------------------------------ MODULE Foundry -------------------------------
(* Forges hold, per place, the recipe of an operator (a type and the         *)
(* arguments it is built with) and make the operator on demand, either once  *)
(* (cached) or anew every time.  Foundries gather several forges and a       *)
(* selection (the encoding) naming one place in each.                        *)
EXTENDS Common

\* a forge: recipes by key (an index or a name), and the instance last made of
\* each recipe since it was registered (0: none)
EmptyForge(cache) == [cache |-> cache, recipe |-> <<>>, made |-> <<>>]
Put(f, k, r) == [f EXCEPT !.recipe = (k :> r) @@ f.recipe, !.made = (k :> 0) @@ f.made]
Known(f, k) == k \in DOMAIN f.recipe
\* the instance obtained: what it is, and which one it may be.  new: a serial
\* number never given before
Made(f, k, r, serial, newest) ==
  /\ Known(f, k) /\ r = f.recipe[k]
  /\ IF f.cache /\ f.made[k] # 0 THEN serial = f.made[k] ELSE serial > newest
Remember(f, k, serial) == [f EXCEPT !.made = (k :> serial) @@ f.made]

-----------------------------------------------------------------------------
\* the operators a run of the two-branch genetic algorithm may and must use.
\* used: role -> set of recipes seen working; sel: role -> recipe selected
OnlySelected(used, sel) == \A r \in DOMAIN used : used[r] \subseteq {sel[r]}
FastUse(used, sel, crate, mrate, offspring) ==
  /\ OnlySelected(used, sel)
  /\ (crate = 0 => used.crosel = {} /\ used.cross = {} /\ used.after = {})
  /\ (crate = 1 => used.mutsel = {} /\ used.crosel # {} /\ used.cross # {} /\ used.after # {})
  /\ (crate = 0 => used.mutsel # {} /\ used.mut # {})
  /\ (crate = 1 /\ mrate = 0 => used.mut = {})
  /\ (crate = 1 /\ mrate = 1 => used.mut # {})
  /\ used.repl # {} /\ used.cont # {}
EAUse(used, sel) == OnlySelected(used, sel) /\ \A r \in (DOMAIN used) \ {"cont"} : used[r] # {}
\* a real-valued encoding names the place above it; out of range is penalised
Ceil(x, one) == IF x >= 0 THEN (x + one - 1) \div one ELSE -((-x) \div one)
Decodes(xs, one) == [i \in DOMAIN xs |-> Ceil(xs[i], one)]
InRange(d, sizes) == \A i \in DOMAIN d : d[i] >= 0 /\ d[i] < sizes[i]
=============================================================================
