----------------------------- MODULE MC_Foundry -----------------------------
(* Every short history of registering, replacing and instantiating: what is  *)
(* obtained is always the latest recipe of the place, a cached instance is   *)
(* stable until its recipe changes, an uncached one is never shared.         *)
EXTENDS Foundry
CONSTANTS Places, Recipes, Depth
VARIABLES f, newest, last, n
vars == <<f, newest, last, n>>
Init == f \in {EmptyForge(TRUE), EmptyForge(FALSE)} /\ newest = 0 /\ last = <<>> /\ n = 0
Reg == \E k \in Places, r \in Recipes : (Known(f, k) \/ k = Cardinality(DOMAIN f.recipe)) /\ f' = Put(f, k, r) /\ last' = <<>> /\ UNCHANGED newest
Make == \E k \in Places : Known(f, k) /\ \E s \in 1..(newest + 1) :
          /\ Made(f, k, f.recipe[k], s, newest)
          /\ f' = Remember(f, k, s) /\ newest' = MaxOf(newest, s) /\ last' = <<k, f.recipe[k], s>>
Next == n < Depth /\ n' = n + 1 /\ (Reg \/ Make)
Spec == Init /\ [][Next]_vars
\* a place that has a recipe can always be instantiated, in exactly one way
Total == \A k \in DOMAIN f.recipe : Cardinality({s \in 1..(newest + 1) : Made(f, k, f.recipe[k], s, newest)}) = 1
Latest == last # <<>> => last[2] = f.recipe[last[1]]
\* two places never share an instance
Apart == \A a, b \in DOMAIN f.made : a # b /\ f.made[a] # 0 => f.made[a] # f.made[b]
Stable == [][(last # <<>> /\ last' # <<>> /\ last[1] = last'[1]) => (f.cache <=> last[3] = last'[3])]_vars
ASSUME \A x \in -8..8 : Ceil(x, 4) * 4 >= x /\ (Ceil(x, 4) - 1) * 4 < x
=============================================================================
