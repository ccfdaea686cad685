SPECIFICATION Spec
CONSTANTS NInd = 4 NGen = 4
INVARIANT Believed
PROPERTIES Kept StepHonest
CHECK_DEADLOCK FALSE
