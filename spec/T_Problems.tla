----------------------------- MODULE T_Problems -----------------------------
EXTENDS Problems, TraceBase
VARIABLES p, x, f, prev
vars == <<p, x, f, prev>>
TNew == /\ IsOp("new") /\ p' = E /\ x' = E.x /\ f' = E.f /\ prev' = <<>>
        /\ TRUE = (E.f = Fit(E.x, E))
\* full evaluation of another solution of the same instance
TEval == IsOp("eval") /\ TRUE = (E.f = Fit(E.x, p)) /\ UNCHANGED vars
\* evaluating a neighbour: exact, and the solution is left as it was
TNb == /\ IsOp("nb") /\ TRUE = (E.nf = Fit(Move(E.m, x), p))
       /\ E.x1 = x /\ ~E.inv /\ E.f1 = f /\ UNCHANGED vars
\* after a move (or its undoing) the solution holds no stale fitness
Inv == -1000000001
Fresh == E.inv \/ E.f1 = Fit(E.x1, p)
TMv == /\ IsOp("mv") /\ E.x1 = Move(E.m, x) /\ TRUE = Fresh
       /\ prev' = x /\ x' = E.x1 /\ f' = (IF E.inv THEN Inv ELSE E.f1) /\ UNCHANGED p
TBack == /\ IsOp("back") /\ E.x1 = prev /\ TRUE = Fresh
         /\ x' = prev /\ prev' = <<>> /\ f' = (IF E.inv THEN Inv ELSE E.f1) /\ UNCHANGED p
TAdopt == /\ IsOp("adopt") /\ TRUE = (E.f1 = Fit(x, p)) /\ E.x1 = x /\ f' = E.f1 /\ UNCHANGED <<p, x, prev>>
\* a neighbour evaluated inside a running local search
TNbx == IsOp("nbx") /\ TRUE = (E.f = Fit(E.x, p) /\ E.nf = Fit(Move(E.m, E.x), p)) /\ UNCHANGED vars
TDone == IsOp("done") /\ TRUE = (E.f = Fit(E.x, p)) /\ UNCHANGED vars
\* neighbours as values
Canon(m) == IF m.t \in {"swap", "rev"} THEN ToSet(m.a) ELSE m.a
TEq == IsOp("eq") /\ TRUE = (E.res = (Canon(E.m) = Canon(E.n))) /\ UNCHANGED vars
TCopy == IsOp("copy") /\ E.m = E.n /\ E.mf = E.nf /\ E.minv = E.ninv /\ UNCHANGED vars
\* counting evaluator
TCount == IsOp("count") /\ E.n = E.calls /\ UNCHANGED vars
\* random instances have the announced shape
TInst == /\ IsOp("inst") /\ UNCHANGED vars
         /\ CASE E.kind = "maxsat" -> /\ Len(E.clauses) = E.m
                                      /\ \A i \in DOMAIN E.clauses : LET c == E.clauses[i] IN
                                           Len(c) = E.k /\ NoDup([j \in DOMAIN c |-> Abs(c[j])]) /\ \A j \in DOMAIN c : Abs(c[j]) \in 1..E.n
              [] E.kind = "nk" -> /\ Len(E.links) = E.n
                                  /\ \A i \in DOMAIN E.links : LET k == E.links[i] IN
                                       /\ Len(k) = E.k + 1 /\ NoDup(k) /\ k[1] = i - 1 /\ \A j \in DOMAIN k : k[j] \in 0..(E.n - 1)
                                       /\ (E.consecutive => \A j \in DOMAIN k : k[j] = (i - 1 + j - 1) % E.n)
                                  /\ \A i \in DOMAIN E.tables : Len(E.tables[i]) = 2^(E.k + 1) /\ \A j \in DOMAIN E.tables[i] : E.tables[i][j] \in 0..1000
\* an instance saved and loaded back is the same instance
TSame == IsOp("same") /\ E.a = E.b /\ UNCHANGED vars
TraceInit == l = 1 /\ p = <<>> /\ x = <<>> /\ f = 0 /\ prev = <<>>
TraceNext == TNew \/ TEval \/ TNb \/ TMv \/ TBack \/ TAdopt \/ TNbx \/ TDone \/ TEq \/ TCopy \/ TCount \/ TInst \/ TSame
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
