-------------------------------- MODULE Trees --------------------------------
(* Parse trees, as the sequence of their nodes in postfix order (the root    *)
(* last; the first argument of a node ends just before it).  A node is an    *)
(* integer: 4 * tag + arity.                                                 *)
EXTENDS Common
Ar(n) == n % 4
Tag(n) == n \div 4
RECURSIVE Back(_, _, _)
\* where the `need' complete trees that end at i start; 0: nowhere
Back(t, i, need) == IF i = 0 THEN 0 ELSE LET m == (need - 1) + Ar(t[i]) IN IF m = 0 THEN i ELSE Back(t, i - 1, m)
Start(t, i) == Back(t, i, 1)
WellFormed(t) == t # <<>> /\ Start(t, Len(t)) = 1
Starts(t) == [i \in DOMAIN t |-> Start(t, i)]
Sub(t, i) == SubSeq(t, Start(t, i), i)
Subs(t) == {Sub(t, i) : i \in DOMAIN t}
Put(t, i, s) == SubSeq(t, 1, Start(t, i) - 1) \o s \o SubSeq(t, i + 1, Len(t))
SizeAt(t, i) == (i - Start(t, i)) + 1
Under(t, i) == Start(t, i)..i
Level(t, i) == Cardinality({j \in i..Len(t) : Start(t, j) <= i})
MaxIn(S) == CHOOSE x \in S : \A y \in S : y <= x
DepthAt(t, i) == LET L == [j \in DOMAIN t |-> Level(t, j)] IN (MaxIn({L[j] : j \in Under(t, i)}) - L[i]) + 1
Depth(t) == DepthAt(t, Len(t))
CumAt(t, i) == SumFun([j \in Under(t, i) |-> SizeAt(t, j)], Under(t, i))
Leaves(t) == {i \in DOMAIN t : Ar(t[i]) = 0}
IsFull(t, d) == \A i \in Leaves(t) : Level(t, i) = d
RECURSIVE Kid(_, _, _)
Kid(t, i, k) == IF k = 1 THEN i - 1 ELSE Start(t, Kid(t, i, k - 1)) - 1
\* the value of a tree, for a fixed meaning of the nodes
RECURSIVE Val(_, _)
Val(t, i) == LET v(k) == Val(t, Kid(t, i, k)) g == Tag(t[i]) IN
  (CASE Ar(t[i]) = 0 -> g [] Ar(t[i]) = 1 -> (2 * v(1)) + g [] Ar(t[i]) = 2 -> ((3 * v(1)) + v(2)) + g
     [] OTHER -> (((5 * v(1)) + (2 * v(2))) + v(3)) + g) % 9973
\* a tree made to fit: itself, or one of its subtrees
Fits2(t, max, r) == IF max < 1 \/ Len(t) <= max THEN r = t ELSE Len(r) <= max /\ r \in Subs(t)

(* ---- variation                                                            *)
Crossed(a, b, max, x, y) == \E i \in DOMAIN a : \E j \in DOMAIN b : Fits2(Put(a, i, Sub(b, j)), max, x) /\ Fits2(Put(b, j, Sub(a, i)), max, y)
Branched(a, new, max, x) == \E i \in DOMAIN a : \E s \in Subs(new) : Fits2(Put(a, i, s), max, x)
Pointed(a, set, x) == \E i \in DOMAIN a : \E n \in set : Ar(n) = Ar(a[i]) /\ x = [a EXCEPT ![i] = n]
Expanded(a, new, max, x) == \E i \in Leaves(a) : \E s \in {s \in Subs(new) : Len(s) > 1} : Fits2(Put(a, i, s), max, x)
Collapsed(a, new, max, x) == \E i \in DOMAIN a : (Len(a) > 1 => i \notin Leaves(a)) /\ \E s \in {s \in Subs(new) : Len(s) = 1} : Fits2(Put(a, i, s), max, x)
Hoisted(a, x) == x \in Subs(a)

(* ---- types: Ty(n) of a node, Want(n, k) of its k-th argument              *)
Typed(t, Ty(_), Want(_, _), root) == /\ Ty(t[Len(t)]) = root
  /\ \A i \in DOMAIN t : \A k \in 1..Ar(t[i]) : Ty(t[Kid(t, i, k)]) = Want(t[i], k)
=============================================================================
