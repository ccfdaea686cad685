SPECIFICATION Spec
CONSTANTS NInd = 3 NGen = 3
INVARIANT Believed
PROPERTIES Kept StepHonest
CHECK_DEADLOCK FALSE
