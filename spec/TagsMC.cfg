SPECIFICATION Spec
CONSTANTS NMax = 2 K = {1, 2} V = {1, 2} MaxLen = 4 Fails = 1
INVARIANT Refines
INVARIANT TwoWay
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
