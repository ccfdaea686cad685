---------------------------- MODULE MC_Breeding -----------------------------
(* Breeding with every small operator tree on every small source.            *)
EXTENDS Breeding
CONSTANTS NSrc, Target, Rates
VARIABLES o, src, s
vars == <<o, src, s>>
Leaf(k, t, m) == [k |-> k, t |-> t, m |-> m, ops |-> <<>>, rates |-> <<>>]
Box(k, a, ra, b, rb) == [k |-> k, t |-> 0, m |-> 0, ops |-> <<a, b>>, rates |-> <<ra, rb>>]
L1 == {Leaf("mon", 1, 0), Leaf("mon", 1, 1), Leaf("mon", 1, 2), Leaf("quad", 2, 0), Leaf("quad", 2, 2), Leaf("bin", 3, 0), Leaf("gen3", 4, 0)}
L2 == {Leaf("mon", 5, 0), Leaf("quad", 6, 0)}
Props == {Box("prop", a, ra, b, 4) : a \in {Leaf("mon", 7, 0), Leaf("quad", 7, 0)}, ra \in {0, 2}, b \in {Leaf("mon", 8, 0), Leaf("quad", 8, 1)}}
Trees == L1 \cup Props \cup {Box("seq", a, ra, b, 4) : a \in L1 \cup Props, ra \in Rates, b \in L2} \cup {Box("seq", a, ra, b, 4) : a \in L1, ra \in Rates, b \in Props}
Init == o \in Trees /\ src \in [1..NSrc -> BOOLEAN] /\ s = [d |-> <<>>, c |-> 0]
Next == UNCHANGED <<o, src>> /\ Len(s.d) < Target /\ s' \in Steps(o, s, src, Free)
Spec == Init /\ [][Next]_vars
\* every offspring stems from a source individual; changed ones are invalid; untouched ones keep their fitness
Derived == \A j \in DOMAIN s.d : LET x == s.d[j] IN x.g[1] \in DOMAIN src /\ (Len(x.g) > 1 => ~x.v) /\ (Len(x.g) = 1 /\ ~Reporting(o) => x.v = src[x.g[1]])
OnlyTags == \A j \in DOMAIN s.d : \A i \in 2..Len(s.d[j].g) : (s.d[j].g[i] \div 100) \in Tags(o)
\* an operator of rate one in a sequence reaches every individual, once (a pair operator at least once)
Always == o.k = "seq" => \A i \in DOMAIN o.ops : LET p == o.ops[i] IN
  /\ (o.rates[i] = 4 /\ p.k \in {"mon", "bin"} /\ p.m = 0 => \A j \in DOMAIN s.d : Cardinality({a \in 2..Len(s.d[j].g) : s.d[j].g[a] \div 100 = p.t}) = 1 \/ i < Len(o.ops))
  /\ (o.rates[i] = 4 /\ p.k = "prop" /\ (\A q \in DOMAIN p.ops : p.ops[q].m = 0) => \A j \in DOMAIN s.d : (i < Len(o.ops) \/ \E a \in 2..Len(s.d[j].g) : s.d[j].g[a] \div 100 \in {7, 8}))
\* in a proportional choice exactly one operator marks an individual
ExactlyOne == o.k = "prop" => \A j \in DOMAIN s.d : Len(s.d[j].g) <= 2
AtEnd == s.c = Len(s.d)
Grows == [][Len(s'.d) > Len(s.d) /\ (\A j \in DOMAIN s.d : s'.d[j] = s.d[j])]_s
=============================================================================
