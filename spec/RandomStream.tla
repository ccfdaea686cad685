---------------------------- MODULE RandomStream ----------------------------
(* Pseudo-random generators seen from outside.  A generator is nothing but  *)
(* the seed it started from and the requests it has served since: asked     *)
(* again for the same things from the same start it gives the same answers. *)
(* Saving records that past and loading takes it over.  Pasts are numbered: *)
(* tab maps (past, request) to the answer given and the number of the past  *)
(* that follows.                                                            *)
EXTENDS Common, TLC
Known(tab, h, k) == <<h, k>> \in DOMAIN tab
\* answer v to request k after past h: consistent with every earlier answer
Consistent(tab, h, k, v) == Known(tab, h, k) => tab[<<h, k>>].v = v
Serve(tab, fresh, h, k, v) == IF Known(tab, h, k) THEN [tab |-> tab, h |-> tab[<<h, k>>].h, fresh |-> fresh]
                              ELSE [tab |-> tab @@ (<<h, k>> :> [v |-> v, h |-> fresh]), h |-> fresh, fresh |-> fresh + 1]
\* requests whose answer is confined: a whole number in lo..hi-1
InRange(q, lo, hi) == q >= lo /\ q < hi
=============================================================================
