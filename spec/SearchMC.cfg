SPECIFICATION Spec
CONSTANTS N = 3 MaxW = 2 MaxLim = 3 Share = 200
INVARIANT Correct
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
