SPECIFICATION Spec
CONSTANTS
  Problems = 8000
  Positions = 3
  Cands = 2
INVARIANTS HmmHolds MdpHolds NotBelow
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
