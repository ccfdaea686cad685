SPECIFICATION Spec
CONSTANTS N = 4 K = 2 Kind = "linear" Places = {0, 1, 2} V = 2 Dir = 1
INVARIANTS NbIsBest Truthful Covered Homely
PROPERTY Improving
