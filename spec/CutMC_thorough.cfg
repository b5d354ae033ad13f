SPECIFICATION Spec
CONSTANTS
  MaxPts = 6
  W = 2
  H = 2
  Share = 12
  MaxCut = 9
INVARIANTS SimpRight CutRight Additive
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
