SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Conserved SwapTwo ShiftOne TwoOptSegment Involution PMXSame PMXPositions
CONSTRAINT CONSTRAINTBound
CHECK_DEADLOCK FALSE
