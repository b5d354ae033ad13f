SPECIFICATION Spec
CONSTANTS Problems = 600 Side = 3
INVARIANTS ReadBack TreeRight GeometryRight
CHECK_DEADLOCK FALSE
