-------------------------- MODULE MC_RandomStream ---------------------------
(* A concrete generator (recurrence plus the spare deviate that requests    *)
(* for pairs leave behind) is indistinguishable from its past: two machines *)
(* with the same past are in the same state, saved states included.  Saving *)
(* must record the spare deviate, and seeding must drop it.                 *)
EXTENDS RandomStream
CONSTANTS K, Depth
VARIABLES gen, past, file, filepast
vars == <<gen, past, file, filepast>>
Nx(s) == (5 * s + 3) % K
Seeds == 0..1
G == {1, 2}
Fresh(s) == [s |-> s, c |-> -1]
Init == gen = [g \in G |-> Fresh(0)] /\ past = [g \in G |-> <<0, <<>>>>] /\ file = Fresh(0) /\ filepast = <<0, <<>>>>
Grow(g, k) == Len(past[g][2]) < Depth /\ past' = [past EXCEPT ![g] = <<past[g][1], Append(past[g][2], k)>>]
Raw(g) == Grow(g, "raw") /\ gen' = [gen EXCEPT ![g].s = Nx(@)] /\ UNCHANGED <<file, filepast>>
Pair(g) == /\ Grow(g, "pair")
           /\ gen' = [gen EXCEPT ![g] = IF gen[g].c >= 0 THEN [s |-> gen[g].s, c |-> -1] ELSE [s |-> Nx(Nx(gen[g].s)), c |-> Nx(gen[g].s)]]
           /\ UNCHANGED <<file, filepast>>
Seed(g, s) == gen' = [gen EXCEPT ![g] = Fresh(s)] /\ past' = [past EXCEPT ![g] = <<s, <<>>>>] /\ UNCHANGED <<file, filepast>>
Save(g) == file' = gen[g] /\ filepast' = past[g] /\ UNCHANGED <<gen, past>>
Load(g) == gen' = [gen EXCEPT ![g] = file] /\ past' = [past EXCEPT ![g] = filepast] /\ UNCHANGED <<file, filepast>>
Next == \E g \in G : Raw(g) \/ Pair(g) \/ (\E s \in Seeds : Seed(g, s)) \/ Save(g) \/ Load(g)
Spec == Init /\ [][Next]_vars
SamePast == (past[1] = past[2] => gen[1] = gen[2]) /\ \A g \in G : past[g] = filepast => gen[g] = file
=============================================================================
