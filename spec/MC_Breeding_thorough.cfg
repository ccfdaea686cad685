SPECIFICATION Spec
CONSTANTS NSrc = 3
 Target = 4
 Rates = {0, 2, 4}
INVARIANTS Derived OnlyTags Always ExactlyOne AtEnd
PROPERTY Grows
CHECK_DEADLOCK FALSE
