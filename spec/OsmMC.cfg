SPECIFICATION Spec
CONSTANTS Problems = 30 Choice = 6 Depth = 4
INVARIANTS EdgesRight EndsRight VertsRight TagsRight
CHECK_DEADLOCK FALSE
