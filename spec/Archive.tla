------------------------------ MODULE Archive -------------------------------
(* Pareto archives (moeoArchive and its bounded descendants).                *)
(*                                                                           *)
(* A member is a record [id, v]: a submitted solution and its objective      *)
(* vector.  The archive is updated one solution at a time; a population is   *)
(* submitted as a sequence of such updates, bounded archives reduce after    *)
(* the update.                                                               *)
EXTENDS Pareto

VARIABLES arch,     \* set of members
          hist,     \* set of all members ever submitted (observation only)
          conf      \* [kind, dirs, replace, cap]

avars == <<arch, hist, conf>>

Vecs(S) == {m.v : m \in S}

\* ---- the elementary update: evict what x dominates (and equals, if it may
\*      replace), then x enters unless a remaining member forbids it
Evicted(A, x, dirs, replace) ==
  {m \in A : Dominates(x.v, m.v, dirs) \/ (replace /\ m.v = x.v)}
Blocked(A, x, dirs, replace) ==
  \E m \in A : Dominates(m.v, x.v, dirs) \/ (~replace /\ m.v = x.v)

UpdBase(A, x, c) == A \ Evicted(A, x, c.dirs, c.replace)
UpdOk(A, x, c) == ~Blocked(UpdBase(A, x, c), x, c.dirs, c.replace)
Upd(A, x, c) == IF UpdOk(A, x, c) THEN UpdBase(A, x, c) \cup {x} ELSE UpdBase(A, x, c)

\* archive with room only for improvements: a full archive refuses newcomers
ImprOk(A, x, c) == UpdOk(A, x, c) /\ Cardinality(UpdBase(A, x, c)) < c.cap
ImprUpd(A, x, c) == IF ImprOk(A, x, c) THEN UpdBase(A, x, c) \cup {x} ELSE UpdBase(A, x, c)

RECURSIVE UpdSeq(_, _, _)
UpdSeq(A, xs, c) == IF xs = <<>> THEN A ELSE UpdSeq(Upd(A, Head(xs), c), Tail(xs), c)
RECURSIVE UpdSeqOk(_, _, _)
UpdSeqOk(A, xs, c) == IF xs = <<>> THEN FALSE
                      ELSE UpdOk(A, Head(xs), c) \/ UpdSeqOk(Upd(A, Head(xs), c), Tail(xs), c)
RECURSIVE ImprSeq(_, _, _)
ImprSeq(A, xs, c) == IF xs = <<>> THEN A ELSE ImprSeq(ImprUpd(A, Head(xs), c), Tail(xs), c)
RECURSIVE ImprSeqOk(_, _, _)
ImprSeqOk(A, xs, c) == IF xs = <<>> THEN FALSE
                       ELSE ImprOk(A, Head(xs), c) \/ ImprSeqOk(ImprUpd(A, Head(xs), c), Tail(xs), c)

\* ---- reduction of an archive ordered by (fitness, diversity): the best cap
\* members survive.  worth is a function from ids to <<fitness, diversity>>.
WorthLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
IsBestCut(K, A, cap, worth) ==
  /\ K \subseteq A
  /\ Cardinality(K) = MinOf(cap, Cardinality(A))
  /\ \A k \in K, r \in A \ K : ~WorthLess(worth[k.id], worth[r.id])

-----------------------------------------------------------------------------
\* ---- the state machine
New(c) == arch' = {} /\ hist' = {} /\ conf' = c

Insert(x) ==
  /\ conf.kind = "unbounded"
  /\ arch' = Upd(arch, x, conf)
  /\ hist' = hist \cup {x} /\ UNCHANGED conf

InsertImpr(x) ==
  /\ conf.kind = "impr"
  /\ arch' = ImprUpd(arch, x, conf)
  /\ hist' = hist \cup {x} /\ UNCHANGED conf

InsertFitDiv(x, worth) ==
  /\ conf.kind = "fitdiv"
  /\ \E K \in SUBSET Upd(arch, x, conf) :
       /\ IsBestCut(K, Upd(arch, x, conf), conf.cap, worth)
       /\ arch' = K
  /\ hist' = hist \cup {x} /\ UNCHANGED conf

-----------------------------------------------------------------------------
\* ---- properties
SubmittedOnly == arch \subseteq hist
NonDominated == MutuallyNonDominated(Vecs(arch), conf.dirs)
NoDuplicates == \A m, n \in arch : m.v = n.v => m = n
ExactFront == conf.kind = "unbounded" => Vecs(arch) = NDFront(Vecs(hist), conf.dirs)
Capacity == conf.kind # "unbounded" => Cardinality(arch) <= conf.cap
=============================================================================
