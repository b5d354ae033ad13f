SPECIFICATION Spec
CONSTANTS Problems = 40 Choice = 6 Depth = 5
INVARIANTS EdgesRight EndsRight VertsRight TagsRight
CHECK_DEADLOCK FALSE
