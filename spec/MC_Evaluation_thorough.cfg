SPECIFICATION Spec
CONSTANTS N = 2 V = 3 Lim = 3 T = 7
INVARIANTS CallsExact NoWaste Consistent BudgetExact NoCallLate KeepBest
CHECK_DEADLOCK FALSE
