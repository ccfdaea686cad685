---------------------------- MODULE MC_VarLength ----------------------------
(* Two genotypes under redistribution, insertion and deletion of atoms.      *)
EXTENDS VarLength
CONSTANTS Lo, Hi, Steps
VARIABLES p, q, next, made, gone
vars == <<p, q, next, made, gone>>
Init == p \in {<<1>>, <<1, 2>>} /\ q \in {<<7>>, <<7, 8>>, <<7, 8, 9>>} /\ next = 20 /\ made = ToSet(p \o q) /\ gone = {}
Share == \E S \in SUBSET (DOMAIN p), T \in SUBSET (DOMAIN q) :
  LET r == PartOf(p, q, S, T) s == RestOf(p, q, S, T) IN
  InLim(Len(r), Lo, Hi) /\ InLim(Len(s), Lo, Hi) /\ p' = r /\ q' = s /\ UNCHANGED <<next, made, gone>>
Add == Len(p) < Hi /\ p' \in Insertions(p, next) /\ next' = next + 1 /\ made' = made \cup {next} /\ UNCHANGED <<q, gone>>
Del == Len(p) > Lo /\ \E i \in DOMAIN p : p' = RemoveAt(p, i) /\ gone' = gone \cup {p[i]} /\ UNCHANGED <<q, next, made>>
Next == next < 20 + Steps /\ Cardinality(gone) < Steps /\ (Share \/ Add \/ Del)
Spec == Init /\ [][Next]_vars
Limits == InLim(Len(p), Lo, Hi) /\ InLim(Len(q), Lo, Hi)
Conserved == NoDup(p \o q) /\ ToSet(p \o q) = made \ gone
\* the recogniser used on recorded histories accepts exactly the redistributions
Recognised == [][(UNCHANGED next /\ UNCHANGED gone) => Redistributed(p, q, p', q', Lo, Hi)]_vars
Sound == \A S \in SUBSET (DOMAIN p), T \in SUBSET (DOMAIN q) : PartBy(PartOf(p, q, S, T), p, q)
=============================================================================
