SPECIFICATION Spec
CONSTANTS A = 3 B = 3 V = 3 T = 8
INVARIANTS GenExact PeriodExact FitExact EvalExact TimeExact SteadyExact SteadyMin
CHECK_DEADLOCK FALSE
