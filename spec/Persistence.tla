----------------------------- MODULE Persistence -----------------------------
(* Text persistence.  A text stream is a queue of the values written on it;   *)
(* reading into an object takes the oldest value and replaces whatever the    *)
(* object held.  A state file is a sequence of named sections written from a   *)
(* registry of objects in registration order; loading it walks the sections,   *)
(* gives each one whose name is registered to that object, ignores the others   *)
(* and leaves objects without a section as they were.                          *)
EXTENDS Integers, Sequences, FiniteSets, Common

\* ------------------------------------------------------------------ names
\* registering a second object of a class gives it a numbered name
RECURSIVE FreshFrom(_, _, _)
FreshFrom(taken, class, k) == IF <<class, k>> \in taken THEN FreshFrom(taken, class, k + 1) ELSE <<class, k>>
FreshName(taken, class) == FreshFrom(taken, class, 0)
RECURSIVE NamesOf(_, _, _)
NamesOf(classes, i, acc) ==
  IF i > Len(classes) THEN acc ELSE NamesOf(classes, i + 1, Append(acc, FreshName({acc[j] : j \in Ix(acc)}, classes[i])))
Names(classes) == NamesOf(classes, 1, <<>>)

\* ------------------------------------------------------------------ files
\* sections: <<name, value>>; registry: sequence of <<name, object>>
Saved(reg, mem) == [i \in 1..Len(reg) |-> <<reg[i][1], mem[reg[i][2]]>>]
ObjOf(reg, name) == CHOOSE o \in {reg[i][2] : i \in {j \in 1..Len(reg) : reg[j][1] = name}} : TRUE
Known(reg, name) == \E i \in 1..Len(reg) : reg[i][1] = name
RECURSIVE LoadFrom(_, _, _, _)
LoadFrom(file, reg, mem, i) ==
  IF i > Len(file) THEN mem
  ELSE LoadFrom(file, reg, IF Known(reg, file[i][1]) THEN [mem EXCEPT ![ObjOf(reg, file[i][1])] = file[i][2]] ELSE mem, i + 1)
Loaded(file, reg, mem) == LoadFrom(file, reg, mem, 1)
==============================================================================
