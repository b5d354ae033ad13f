SPECIFICATION Spec
CONSTANTS N = 8 QMax = 3 WMax = 4 Schedules = 1500
INVARIANT Safe
CHECK_DEADLOCK FALSE
