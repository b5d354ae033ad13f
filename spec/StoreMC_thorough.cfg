SPECIFICATION Spec
CONSTANTS MaxLen = 5 FailsG = 2 FailsT = 1
INVARIANT Refines
INVARIANT StaticRefines
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
