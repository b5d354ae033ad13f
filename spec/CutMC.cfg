SPECIFICATION Spec
CONSTANTS
  MaxPts = 5
  W = 2
  H = 2
  Share = 20
  MaxCut = 7
INVARIANTS SimpRight CutRight Additive
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
