SPECIFICATION Spec
CONSTANTS
  MaxPts = 7
  W = 2
  H = 1
  Share = 20
INVARIANTS Kept Right Ends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
