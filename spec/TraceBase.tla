----------------------------- MODULE TraceBase ------------------------------
(* Binding of a specification to a history recorded from the real code.      *)
(* Every recorded line must be explained by exactly one step.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l           \* index of the next recorded line

E == Trace[l]
IsOp(name) == l <= Len(Trace) /\ E.op = name /\ l' = l + 1

\* every recorded line was consumed
Accepted ==
  LET d == TLCGet("stats").diameter - 1
  IN IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
     ELSE PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
