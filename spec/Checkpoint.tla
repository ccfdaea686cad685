----------------------------- MODULE Checkpoint -----------------------------
(* One checkpoint call: a log of <<class, index, ok>>.  Classes: 1 sorted    *)
(* statistics, 2 statistics, 3 updaters, 4 monitors, 5 criteria; 11..14 the  *)
(* final calls of classes 1..4.  reg[c]: number registered in class c.       *)
EXTENDS Population
Entries(log, c) == SelectSeq(log, LAMBDA e : e[1] = c)
OnceEach(log, c, n) == [i \in DOMAIN Entries(log, c) |-> Entries(log, c)[i][2]] = [i \in 1..n |-> i]
Pos(log, c) == {i \in DOMAIN log : log[i][1] = c}
AllBefore(log, a, b) == \A i \in Pos(log, a), j \in Pos(log, b) : i < j
Finals == {11, 12, 13, 14}
CallOk(log, reg, ans, out) ==
  /\ \A i \in DOMAIN log : log[i][3] = 1
  /\ \A c \in 1..4 : OnceEach(log, c, reg[c])
  /\ {log[i][2] : i \in Pos(log, 5)} = 1..reg[5] /\ Cardinality(Pos(log, 5)) = reg[5]
  /\ AllBefore(log, 1, 3) /\ AllBefore(log, 2, 3) /\ AllBefore(log, 1, 4) /\ AllBefore(log, 2, 4) /\ AllBefore(log, 3, 4)
  /\ out = (\A i \in DOMAIN ans : ans[i])
  /\ IF out THEN \A c \in Finals : Pos(log, c) = {}
     ELSE /\ \A c \in 1..4 : OnceEach(log, 10 + c, reg[c])
          /\ \A c \in Finals, d \in 1..5 : AllBefore(log, d, c)

(* ---- things that happen at a period                                       *)
\* calls first..last of a counter started at c0: the values at which it fires
FiresAt(c0, n, every) == {k \in (c0 + 1)..(c0 + n) : k % every = 0}
=============================================================================
