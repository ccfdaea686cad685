SPECIFICATION Spec
CONSTANTS N = 2 V = 2 Lim = 2 T = 5
INVARIANTS CallsExact NoWaste Consistent BudgetExact NoCallLate KeepBest
CHECK_DEADLOCK FALSE
