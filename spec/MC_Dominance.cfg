SPECIFICATION Spec
CONSTANTS MaxV = 2 NObj = 2
INVARIANTS ParetoOrder StrictOrder WeakOrder Chain EpsOne FD AG LX FrontCovers
