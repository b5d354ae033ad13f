SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxR = 3 Share = 60
INVARIANT Correct
INVARIANT CleanupSound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
