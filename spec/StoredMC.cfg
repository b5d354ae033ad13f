SPECIFICATION Spec
CONSTANTS Problems = 48 Side = 3
INVARIANTS ReadBack TreeRight GeometryRight
CHECK_DEADLOCK FALSE
