----------------------------- MODULE Documents ------------------------------
(* Documents made of strings, arrays and objects, and their text.            *)
(* A string is the sequence of its character codes; a document is            *)
(* <<"s", codes>>, <<"a", documents>> or <<"o", <<key, document>> pairs>>,    *)
(* the pairs in increasing order of their keys.                              *)
EXTENDS Common
Quote == 34
Slash == 92
Open == [o |-> 123, a |-> 91]
Close == [o |-> 125, a |-> 93]
Colon == 58
Blank == {44, 32, 10}                \* comma, space, newline
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Esc(s) == Cat([i \in DOMAIN s |-> IF s[i] \in {Quote, Slash} THEN <<Slash, s[i]>> ELSE <<s[i]>>])
Str(s) == <<Quote>> \o Esc(s) \o <<Quote>>
RECURSIVE Written(_)
Written(d) == CASE d[1] = "s" -> Str(d[2])
  [] d[1] = "a" -> <<Open.a>> \o Cat([i \in DOMAIN d[2] |-> (IF i = 1 THEN <<>> ELSE <<44>>) \o Written(d[2][i])]) \o <<Close.a>>
  [] d[1] = "o" -> <<Open.o>> \o Cat([i \in DOMAIN d[2] |-> (IF i = 1 THEN <<>> ELSE <<44>>) \o Str(d[2][i][1]) \o <<Colon>> \o Written(d[2][i][2])]) \o <<Close.o>>
RECURSIVE Skip(_, _)
Skip(t, p) == IF p <= Len(t) /\ t[p] \in Blank THEN Skip(t, p + 1) ELSE p
\* reading returns <<what was read, position after it>>
RECURSIVE Chars(_, _, _)
Chars(t, p, s) == IF t[p] = Quote THEN <<s, p + 1>> ELSE IF t[p] = Slash THEN Chars(t, p + 2, Append(s, t[p + 1])) ELSE Chars(t, p + 1, Append(s, t[p]))
\* of two values for one key the later one counts
Before(a, b) == \E n \in 0..Len(a) : n < Len(b) /\ SubSeq(a, 1, n) = SubSeq(b, 1, n) /\ (n = Len(a) \/ (n < Len(a) /\ a[n + 1] < b[n + 1]))
AddTo(o, k, d) == LET ks == {o[i][1] : i \in DOMAIN o} IN
  IF k \in ks THEN [i \in DOMAIN o |-> IF o[i][1] = k THEN <<k, d>> ELSE o[i]]
  ELSE SelectSeq(o, LAMBDA e : Before(e[1], k)) \o <<<<k, d>>>> \o SelectSeq(o, LAMBDA e : ~Before(e[1], k))
RECURSIVE Read(_, _), Items(_, _, _), Pairs(_, _, _)
Read(t, p0) == LET p == Skip(t, p0) IN
  IF t[p] = Quote THEN LET r == Chars(t, p + 1, <<>>) IN <<<<"s", r[1]>>, r[2]>>
  ELSE IF t[p] = Open.a THEN Items(t, p + 1, <<>>) ELSE Pairs(t, p + 1, <<>>)
Items(t, p0, a) == LET p == Skip(t, p0) IN IF t[p] = Close.a THEN <<<<"a", a>>, p + 1>> ELSE LET r == Read(t, p) IN Items(t, r[2], Append(a, r[1]))
Pairs(t, p0, o) == LET p == Skip(t, p0) IN IF t[p] = Close.o THEN <<<<"o", o>>, p + 1>>
  ELSE LET k == Chars(t, p + 1, <<>>) r == Read(t, k[2] + 1) IN Pairs(t, r[2], AddTo(o, k[1], r[1]))
\* how many commas stand outside the strings of a text, and how many there must be
RECURSIVE Commas(_, _, _), Needed(_)
Commas(t, p, in) == IF p > Len(t) THEN 0 ELSE IF in THEN (IF t[p] = Slash THEN Commas(t, p + 2, TRUE) ELSE Commas(t, p + 1, t[p] # Quote))
  ELSE (IF t[p] = 44 THEN 1 ELSE 0) + Commas(t, p + 1, t[p] = Quote)
Between(n) == IF n = 0 THEN 0 ELSE n - 1
Needed(d) == CASE d[1] = "s" -> 0
  [] d[1] = "a" -> Between(Len(d[2])) + SumSeq([i \in DOMAIN d[2] |-> Needed(d[2][i])])
  [] d[1] = "o" -> Between(Len(d[2])) + SumSeq([i \in DOMAIN d[2] |-> Needed(d[2][i][2])])
Separated(t, d) == Commas(t, 1, FALSE) = Needed(d)
Parse(t) == Read(t, 1)[1]
=============================================================================
