----------------------------- MODULE Parameters ------------------------------
(* Program parameters.  Options come from a parameter file (read first) and    *)
(* from the command line; each names an option by its long or by its short      *)
(* name, and a later one replaces an earlier one of the same name.  A parameter  *)
(* declared by the program takes the text given under one of its names, or its   *)
(* default if none was given.  Help is needed when it is asked for, when a       *)
(* required parameter is missing, or (unless switched off) when a name was given   *)
(* that no parameter bears.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, Common

\* an option: [form |-> "long" | "short", key |-> name, v |-> value]
Given(opts) == {<<opts[i].form, opts[i].key>> : i \in Ix(opts)}
LastOf(opts, form, key) == LET S == {i \in Ix(opts) : opts[i].form = form /\ opts[i].key = key} IN opts[CHOOSE i \in S : \A j \in S : j <= i].v
\* all options in the order in which they count
InOrder(file, args) == file \o args

\* the names of a declared parameter p: [long |-> .., short |-> "" or .., ...]
Has(opts, p) == <<"long", p.long>> \in Given(opts) \/ (p.short # "" /\ <<"short", p.short>> \in Given(opts))
\* with both names given, either may count
Texts(opts, p) ==
  (IF <<"long", p.long>> \in Given(opts) THEN {LastOf(opts, "long", p.long)} ELSE {})
  \cup (IF p.short # "" /\ <<"short", p.short>> \in Given(opts) THEN {LastOf(opts, "short", p.short)} ELSE {})
Values(opts, p) == IF Has(opts, p) THEN Texts(opts, p) ELSE {p.dflt}

Missing(opts, params) == \E i \in Ix(params) : params[i].req /\ ~Has(opts, params[i])
Unknown(opts, params) == \E g \in Given(opts) : \A i \in Ix(params) :
                            IF g[1] = "long" THEN params[i].long # g[2] ELSE params[i].short # g[2]
NeedsHelp(opts, params, asked, strict) == asked \/ Missing(opts, params) \/ (strict /\ Unknown(opts, params))

\* a printed parameter set given to another program: what was given is given again
Reprinted(opts, params, p) == IF Has(opts, p) THEN Values(opts, p) ELSE {}
==============================================================================
