SPECIFICATION Spec
CONSTANTS
  MaxLines = 2
  MaxOps = 3
  MaxPts = 9
  Share = 40
INVARIANTS Owned MemoryRight Meaning
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
