---------------------------- MODULE T_Persistence ---------------------------
EXTENDS Persistence, TraceBase
VARIABLES mem, stream, files
vars == <<mem, stream, files>>
RegOf(cls, objs) == LET nm == Names(cls) IN [i \in 1..Len(objs) |-> <<nm[i], objs[i]>>]
TForget == IsOp("forget") /\ mem' = <<>> /\ stream' = <<>> /\ files' = <<>>
TSet == IsOp("set") /\ mem' = (E.o :> E.v) @@ mem /\ UNCHANGED <<stream, files>>
TWrite == IsOp("write") /\ TRUE = (E.v = mem[E.o]) /\ stream' = Append(stream, mem[E.o]) /\ UNCHANGED <<mem, files>>
TRead == IsOp("read") /\ TRUE = (stream # <<>> /\ E.v = Head(stream)) /\ mem' = [mem EXCEPT ![E.o] = E.v] /\ stream' = Tail(stream) /\ UNCHANGED files
TSave == /\ IsOp("save") /\ TRUE = (\A i \in DOMAIN E.objs : E.v[i] = mem[E.objs[i]])
         /\ files' = (E.f :> Saved(RegOf(E.cls, E.objs), mem)) @@ files /\ UNCHANGED <<mem, stream>>
\* sections rearranged by hand: order lists section numbers, 0 for one nobody knows
TEdit == /\ IsOp("edit")
         /\ files' = (E.f :> [i \in 1..Len(E.order) |-> IF E.order[i] = 0 THEN <<<<"nobody", 0>>, <<>>>> ELSE files[E.from][E.order[i]]]) @@ files
         /\ UNCHANGED <<mem, stream>>
TLoad == /\ IsOp("load")
         /\ TRUE = (LET back == Loaded(files[E.f], RegOf(E.cls, E.objs), mem) IN \A o \in DOMAIN mem : E.all[o] = back[o])
         /\ mem' = [o \in DOMAIN mem |-> E.all[o]] /\ UNCHANGED <<stream, files>>
\* every writer/reader leaves the same value behind when done twice
TSame == IsOp("same") /\ TRUE = (E.a = E.b) /\ UNCHANGED vars
TraceInit == l = 1 /\ mem = <<>> /\ stream = <<>> /\ files = <<>>
TraceNext == TForget \/ TSet \/ TWrite \/ TRead \/ TSave \/ TEdit \/ TLoad \/ TSame
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
