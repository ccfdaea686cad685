SPECIFICATION Spec
CONSTANTS MaxV = 2 NObj = 3
INVARIANTS ParetoOrder StrictOrder WeakOrder Chain EpsOne FD AG LX FrontCovers
