SPECIFICATION Spec
CONSTANTS Steps = 3 Mx = 2
INVARIANTS Bounded Exact NoImprLong Budget
CHECK_DEADLOCK FALSE
