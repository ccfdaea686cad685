---------------------------- MODULE MC_Documents ----------------------------
(* Every document within bounds, written, spaced out and read back.          *)
EXTENDS Documents
CONSTANTS Alphabet, L, W
VARIABLES doc, text
vars == <<doc, text>>
Strings == UNION {[1..k -> Alphabet] : k \in 0..L}
D0 == {<<"s", s>> : s \in Strings}
Arr(S) == {<<"a", a>> : a \in UNION {[1..k -> S] : k \in 0..W}}
Obj(S) == {<<"o", <<>>>>} \cup {<<"o", <<<<k, d>>>>>> : k \in Strings, d \in S} \cup
  {<<"o", <<<<k1, d1>>, <<k2, d2>>>>>> : k1 \in {<<>>, <<34>>}, d1 \in S, k2 \in {<<92>>, <<92, 34>>}, d2 \in {<<"s", <<>>>>, <<"a", <<>>>>}}
D1 == Arr(D0) \cup Obj(D0)
Few == {<<"a", <<>>>>, <<"o", <<>>>>, <<"s", <<92>>>>, <<"o", <<<<<<34>>, <<"s", <<34, 92>>>>>>>>>>}
D2 == Obj(Arr(Few)) \cup Obj(Obj(Few))
Init == doc \in D1 \cup D2 /\ text = Written(doc)
\* blanks may be put in before, after and just inside
Space == /\ Len(text) <= Len(Written(doc)) /\ \E i \in {0, 1, Len(text)} : \E b \in Blank :
              (i = 1 => text[1] # Quote) /\ text' = SubSeq(text, 1, i) \o <<b>> \o SubSeq(text, i + 1, Len(text))
         /\ UNCHANGED doc
Spec == Init /\ [][Space]_vars
RoundTrip == Parse(text) = doc
CommasRight == Separated(Written(doc), doc)
=============================================================================
