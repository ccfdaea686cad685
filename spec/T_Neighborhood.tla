--------------------------- MODULE T_Neighborhood ---------------------------
EXTENDS Neighborhood, TraceBase
VARIABLES c, all, seen, st
vars == <<c, all, seen, st>>
TNew == IsOp("new") /\ c' = E /\ all' = All(E) /\ seen' = <<>> /\ st' = "idle" /\ TRUE = (E.has = (All(E) # {}))
Budg == LET total == Cardinality(all) IN
        IF c.rule = "repl" THEN (IF c.limit = 0 THEN -1 ELSE c.limit) ELSE IF c.limit = 0 THEN total ELSE MinOf(c.limit, total)
Ok(m, s) == m \in all /\ (c.rule = "once" => m \notin ToSet(s))
\* ordered structures show their index space in increasing order
InOrder(m, s) == c.ordered => m = <<Len(s)>>
TInit == /\ IsOp("init") /\ TRUE = (Ok(E.m, <<>>) /\ InOrder(E.m, <<>>)) /\ seen' = <<E.m>> /\ st' = "run" /\ UNCHANGED <<c, all>>
         /\ (E.pos # -1 => E.pos = E.m[1])
TNext == /\ IsOp("next") /\ st = "run" /\ TRUE = (Ok(E.m, seen) /\ InOrder(E.m, seen)) /\ seen' = Append(seen, E.m) /\ UNCHANGED <<c, all, st>>
         /\ (E.pos # -1 => E.pos = E.m[1])
TCont == IsOp("cont") /\ st = "run" /\ E.res = (Budg = -1 \/ Len(seen) < Budg) /\ UNCHANGED vars
\* index <-> positions, for sizes too large to enumerate
TKey == /\ IsOp("key") /\ UNCHANGED vars
        /\ E.back = E.key
        /\ E.i >= 0 /\ E.i < E.n /\ E.j >= 0
        /\ IF E.space = "pairs" THEN E.i < E.j /\ E.j < E.n ELSE E.j <= E.n /\ E.j # E.i /\ E.j # E.i + 1
\* over many explorations every neighbour gets shown
TCover == IsOp("cover") /\ ToSet(E.got) = all /\ UNCHANGED vars
TSize == IsOp("size") /\ E.size = Cardinality(all) /\ UNCHANGED vars
TraceInit == l = 1 /\ c = <<>> /\ all = {} /\ seen = <<>> /\ st = "none"
TraceNext == TNew \/ TInit \/ TNext \/ TCont \/ TKey \/ TCover \/ TSize
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
