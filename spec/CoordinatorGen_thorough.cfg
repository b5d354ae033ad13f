SPECIFICATION Spec
CONSTANTS N = 12 QMax = 3 WMax = 4 Schedules = 12000
INVARIANT Safe
CHECK_DEADLOCK FALSE
