---------------------------- MODULE Gen_Archive -----------------------------
(* Insertion histories of the specification, printed for replay.            *)
EXTENDS MC_Archive, Json
CONSTANT Depth
VARIABLE h
GInit == Init /\ h = <<>> /\ conf.kind = "unbounded"
GNext == \E v \in Vectors : /\ Insert([id |-> Len(h), v |-> v]) /\ h' = Append(h, v)
Emit == Len(h) = Depth => PrintT("SCEN " \o ToJson([dirs |-> conf.dirs, vs |-> h]))
GSpec == GInit /\ [][GNext]_<<avars, h>>
=============================================================================
