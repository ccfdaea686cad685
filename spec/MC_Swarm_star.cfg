SPECIFICATION Spec
CONSTANTS N = 3 K = 2 Kind = "star" Places = {0, 1, 2} V = 2 Dir = 0
INVARIANTS NbIsBest Truthful Covered Homely
PROPERTY Improving
