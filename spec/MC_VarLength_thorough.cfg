SPECIFICATION Spec
CONSTANTS Lo = 1
 Hi = 4
 Steps = 2
INVARIANTS Limits Conserved Sound
PROPERTY Recognised
CHECK_DEADLOCK FALSE
