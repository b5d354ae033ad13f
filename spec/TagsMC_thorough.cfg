SPECIFICATION Spec
CONSTANTS NMax = 2 K = {1, 2} V = {1, 2} MaxLen = 5 Fails = 2
INVARIANT Refines
INVARIANT TwoWay
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
