----------------------------- MODULE T_Documents ----------------------------
EXTENDS Documents, TraceBase
VARIABLE n0
vars == <<n0>>
\* written and read back: the same document; the text says what the document says
TTrip == IsOp("trip") /\ TRUE = (E.back = E.doc /\ E.again = E.doc /\ Parse(E.text) = E.doc /\ Separated(E.text, E.doc)) /\ UNCHANGED vars
TRead == IsOp("read") /\ TRUE = (E.doc = Parse(E.text)) /\ UNCHANGED vars
TVal == IsOp("val") /\ TRUE = (E.got = E.want) /\ UNCHANGED vars
TraceInit == l = 1 /\ n0 = 0
TraceNext == TTrip \/ TRead \/ TVal
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
