SPECIFICATION Spec
CONSTANTS Steps = 4 Mx = 3
INVARIANTS Bounded Exact NoImprLong Budget
CHECK_DEADLOCK FALSE
