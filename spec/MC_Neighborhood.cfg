SPECIFICATION Spec
INVARIANTS Complete Valid NeverStuck
CHECK_DEADLOCK FALSE
