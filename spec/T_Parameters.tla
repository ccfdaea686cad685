---------------------------- MODULE T_Parameters ----------------------------
EXTENDS Parameters, TraceBase
VARIABLES opts, params
vars == <<opts, params>>
Builtin == <<[long |-> "help", short |-> "h", dflt |-> "0", req |-> FALSE], [long |-> "stopOnUnknownParam", short |-> "", dflt |-> "1", req |-> FALSE]>>
\* a program starts: parameter file, then command line
TParser == IsOp("parser") /\ opts' = InOrder(E.file, E.args) /\ params' = Builtin
\* a parameter is declared and takes its value
TDeclare == /\ IsOp("declare") /\ TRUE = (E.v \in Values(opts, E.p) /\ E.there = Has(opts, E.p))
            /\ params' = Append(params, E.p) /\ opts' = opts
\* declared again under the same name: the first one is meant
TAgain == IsOp("again") /\ TRUE = (E.same /\ \E i \in Ix(params) : params[i].long = E.long /\ E.v \in Values(opts, params[i])) /\ UNCHANGED vars
\* more options arrive later: values follow
TReread == /\ IsOp("reread") /\ opts' = opts \o E.opts /\ params' = params
           /\ TRUE = (\A i \in Ix(E.v) : E.v[i] \in Values(opts \o E.opts, params[i + 2]))
THelp == /\ IsOp("help") /\ UNCHANGED vars
         /\ TRUE = (E.v = NeedsHelp(opts, params, "1" \in Values(opts, params[1]), "1" \in Values(opts, params[2])))
\* what is printed, given to another program with other defaults
TReprint == /\ IsOp("reprint") /\ UNCHANGED vars
            /\ TRUE = (\A i \in Ix(E.v) : IF Has(opts, params[i + 2]) THEN E.v[i] \in Values(opts, params[i + 2]) ELSE E.v[i] = E.dflt[i])
TLookup == IsOp("lookup") /\ UNCHANGED vars /\ TRUE = (E.missing /\ E.wrong /\ \A i \in Ix(E.v) : E.v[i] \in Values(opts, params[i + 2]))
\* setting to a value, or to the text of a value
TSame == IsOp("same") /\ UNCHANGED vars /\ TRUE = (E.a = E.b)
TArgs == IsOp("args") /\ UNCHANGED vars /\ TRUE = (E.name = E.gotname /\ E.list = E.gotlist)
TraceInit == l = 1 /\ opts = <<>> /\ params = <<>>
TraceNext == TParser \/ TDeclare \/ TAgain \/ TReread \/ THelp \/ TReprint \/ TLookup \/ TSame \/ TArgs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
