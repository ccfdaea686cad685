---------------------------- MODULE MC_Problems -----------------------------
(* Walks by elementary moves with delta evaluation: the running fitness kept *)
(* by adding deltas always equals the full evaluation; moves are undone by   *)
(* their announced inverse.                                                  *)
EXTENDS Problems
VARIABLES x, f, p
vars == <<x, f, p>>
Ps == {[kind |-> "onemax"], [kind |-> "royal", k |-> 2],
       [kind |-> "ubqp", Q |-> <<<<2, -3, 1, 0>>, <<4, -1, 0, 2>>, <<0, 1, 3, -5>>, <<1, 0, 0, -2>>>>],
       [kind |-> "maxsat", clauses |-> <<<<-1, 2>>, <<1, -3, 4>>, <<3, -4>>, <<-2>>>>],
       [kind |-> "nk", links |-> <<<<0, 1>>, <<1, 3>>, <<2, 0>>, <<3, 2>>>>, tables |-> <<<<1, 5, 2, 7>>, <<0, 3, 3, 1>>, <<4, 4, 0, 2>>, <<6, 1, 1, 0>>>>]}
Qs == {[kind |-> "qap", A |-> <<<<0, 2, 5, 1>>, <<3, 1, 0, 4>>, <<2, 2, 3, 0>>, <<1, 0, 6, 2>>>>, B |-> <<<<1, 0, 2, 7>>, <<4, 0, 1, 1>>, <<0, 5, 2, 3>>, <<2, 1, 0, 0>>>>],
       [kind |-> "queens"]}
Perms4 == {s \in [1..4 -> 0..3] : Permutes(s)}
Init == \/ x \in [1..4 -> {0, 1}] /\ p \in Ps /\ f = Fit(x, p)
        \/ x \in Perms4 /\ p \in Qs /\ f = Fit(x, p)
\* incremental evaluations as the code computes them, in the terms of the specification
DUbqp(i) == LET Qs2(a, b) == IF a = b THEN p.Q[a][a] ELSE p.Q[a][b] + p.Q[b][a]
                d == Qs2(i + 1, i + 1) + SumSeq([j \in DOMAIN x |-> IF j # i + 1 /\ x[j] = 1 THEN Qs2(i + 1, j) ELSE 0])
            IN IF x[i + 1] = 0 THEN d ELSE -d
DQap(i0, j0) ==
  LET i == i0 + 1  j == j0 + 1  A == p.A  B == [a \in 0..3 |-> [b \in 0..3 |-> p.B[a + 1][b + 1]]]
      Oth == DOMAIN x \ {i, j}
  IN (A[i][i] - A[j][j]) * (B[x[j]][x[j]] - B[x[i]][x[i]]) + (A[i][j] - A[j][i]) * (B[x[j]][x[i]] - B[x[i]][x[j]])
     + FoldSet(LAMBDA k, acc : acc + (A[k][i] - A[k][j]) * (B[x[k]][x[j]] - B[x[k]][x[i]]) + (A[i][k] - A[j][k]) * (B[x[j]][x[k]] - B[x[i]][x[k]]), 0, Oth)
DNk(b) == LET y == FlipAt(x, {b}) IN SumSeq([i \in DOMAIN x |-> IF b \in ToSet(p.links[i]) THEN p.tables[i][NkIndex(y, p.links[i])] - p.tables[i][NkIndex(x, p.links[i])] ELSE 0])
Delta(m) == CASE p.kind = "onemax" -> IF At(x, m.a[1]) = 0 THEN 1 ELSE -1
              [] p.kind = "ubqp" -> DUbqp(m.a[1])
              [] p.kind = "qap" /\ m.t = "swap" -> DQap(m.a[1], m.a[2])
              [] p.kind = "nk" -> DNk(m.a[1])
              [] OTHER -> Fit(Move(m, x), p) - Fit(x, p)
Ms == IF p \in Ps THEN {[t |-> "flip", a |-> <<i>>] : i \in 0..3}
      ELSE {[t |-> t, a |-> <<i, j>>] : t \in {"swap", "rev"}, i \in 0..3, j \in 0..3} \cup {[t |-> "shift", a |-> <<i, j>>] : i \in 0..3, j \in 0..4}
Legal(m) == m.t = "flip" \/ (m.t \in {"swap", "rev"} /\ m.a[1] < m.a[2]) \/ (m.t = "shift" /\ m.a[2] # m.a[1] /\ m.a[2] # m.a[1] + 1)
Next == \E m \in Ms : Legal(m) /\ x' = Move(m, x) /\ f' = f + Delta(m) /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
TrueFitness == f = Fit(x, p)
Closed == IF p \in Ps THEN x \in [1..4 -> {0, 1}] ELSE Permutes(x)
Undone(m) == CASE m.t # "shift" -> m
                [] m.t = "shift" /\ m.a[1] < m.a[2] -> [t |-> "shift", a |-> <<m.a[2] - 1, m.a[1]>>]
                [] OTHER -> [t |-> "shift", a |-> <<m.a[2], m.a[1] + 1>>]
Undo == \A m \in Ms : Legal(m) => Move(Undone(m), Move(m, x)) = x /\ Move(m, x) # x
ASSUME \A nk \in {<<3, 2>>, <<5, 2>>, <<7, 3>>, <<7, 2>>} : LET q == LongPath(nk[1], nk[2]) IN
         /\ Len(q) = (nk[2] + 1) * 2^((nk[1] - 1) \div nk[2]) - nk[2] + 1 /\ NoDup(q)
         /\ \A i \in 1..(Len(q) - 1) : Ham(q[i], q[i + 1]) = 1
=============================================================================
