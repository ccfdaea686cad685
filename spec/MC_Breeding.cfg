SPECIFICATION Spec
CONSTANTS NSrc = 2
 Target = 3
 Rates = {0, 2, 4}
INVARIANTS Derived OnlyTags Always ExactlyOne AtEnd
PROPERTY Grows
CHECK_DEADLOCK FALSE
