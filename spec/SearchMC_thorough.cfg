SPECIFICATION Spec
CONSTANTS N = 3 MaxW = 2 MaxLim = 4 Share = 1000
INVARIANT Correct
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
