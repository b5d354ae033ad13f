SPECIFICATION Spec
CONSTANTS MaxLen = 4 FailsG = 1 FailsT = 1
INVARIANT Refines
INVARIANT StaticRefines
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
