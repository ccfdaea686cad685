----------------------------- MODULE MC_Archive -----------------------------
EXTENDS Archive
CONSTANTS MaxV, NObj, MaxIns, Cap
Vectors == [1..NObj -> 0..MaxV]
Dirs == {[i \in 1..NObj |-> 1], [i \in 1..NObj |-> i % 2]}
Kinds == {"unbounded", "impr", "fitdiv"}
Confs == [kind : Kinds, dirs : Dirs, replace : BOOLEAN, cap : {Cap}]
Init == \E c \in Confs : arch = {} /\ hist = {} /\ conf = c
\* the solution's id is its insertion number; its worth an arbitrary function of it
Worth == [i \in 0..MaxIns |-> <<i % 2, (i * 2) % 3>>]
NextId == Cardinality(hist)
Next == /\ Cardinality(hist) < MaxIns
        /\ \E v \in Vectors : LET x == [id |-> NextId, v |-> v] IN
              Insert(x) \/ InsertImpr(x) \/ InsertFitDiv(x, Worth)
\* an evicted vector never comes back better than what is there: monotone fronts
Monotone == [][conf.kind = "unbounded" =>
                \A u \in Vecs(arch) : \E w \in Vecs(arch') : WeaklyDominates(w, u, conf.dirs)]_avars
Spec == Init /\ [][Next]_avars
=============================================================================
