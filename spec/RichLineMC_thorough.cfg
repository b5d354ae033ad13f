SPECIFICATION Spec
CONSTANTS P = {1, 2, 3} MaxPts = 3 MaxLen = 6 Share = 5
INVARIANT MemoryRight
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
