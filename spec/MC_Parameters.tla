--------------------------- MODULE MC_Parameters ----------------------------
(* A parser as it is built: two tables (long and short names) filled while     *)
(* the file and then the arguments are read, parameters declared in any order   *)
(* before or after more options are read.  The tables give what Parameters       *)
(* prescribes, whatever the interleaving of declarations and readings.            *)
EXTENDS Parameters
CONSTANTS V, L
Keys == {"a", "b", "c"}
P == <<[long |-> "a", short |-> "x", dflt |-> 0, req |-> FALSE], [long |-> "b", short |-> "", dflt |-> 0, req |-> TRUE]>>
Opt == [form : {"long"}, key : {"a", "b", "c"}, v : 1..V] \cup [form : {"short"}, key : {"x", "y"}, v : 1..V]
VARIABLES opts, long, short, declared, value
vars == <<opts, long, short, declared, value>>
Init == opts = <<>> /\ long = [k \in Keys |-> 0] /\ short = [k \in {"x", "y"} |-> 0] /\ declared = {} /\ value = [i \in Ix(P) |-> 0]
Lookup(i, lg, sh) == IF P[i].short # "" /\ sh[P[i].short] # 0 THEN sh[P[i].short] ELSE IF lg[P[i].long] # 0 THEN lg[P[i].long] ELSE value[i]
Read(o) == /\ Len(opts) < L /\ opts' = Append(opts, o)
           /\ (IF o.form = "long" THEN long' = [long EXCEPT ![o.key] = o.v] /\ short' = short ELSE short' = [short EXCEPT ![o.key] = o.v] /\ long' = long)
           /\ declared' = declared /\ value' = [i \in Ix(P) |-> IF i \in declared THEN Lookup(i, long', short') ELSE value[i]]
Declare(i) == i \notin declared /\ declared' = declared \cup {i} /\ value' = [value EXCEPT ![i] = Lookup(i, long, short)] /\ UNCHANGED <<opts, long, short>>
Next == (\E o \in Opt : Read(o)) \/ (\E i \in Ix(P) : Declare(i))
Spec == Init /\ [][Next]_vars
AsPrescribed == \A i \in declared : value[i] \in Values(opts, P[i])
DefaultsKept == \A i \in declared : ~Has(opts, P[i]) => value[i] = P[i].dflt
HelpRight == declared = Ix(P) => (NeedsHelp(opts, P, FALSE, TRUE) <=> (long["b"] = 0 \/ long["c"] # 0 \/ short["y"] # 0))
LastWins == \A k \in Keys : long[k] = IF <<"long", k>> \in Given(opts) THEN LastOf(opts, "long", k) ELSE 0
=============================================================================
