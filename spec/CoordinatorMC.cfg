SPECIFICATION Spec
CONSTANTS ClosedFirst = TRUE N = 5 QMax = 2 WMax = 3
INVARIANT Safe
PROPERTY Ends
CHECK_DEADLOCK FALSE
