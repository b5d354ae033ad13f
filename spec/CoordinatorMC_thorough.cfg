SPECIFICATION Spec
CONSTANTS ClosedFirst = TRUE N = 7 QMax = 3 WMax = 3
INVARIANT Safe
PROPERTY Ends
CHECK_DEADLOCK FALSE
