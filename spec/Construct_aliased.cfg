SPECIFICATION Spec
CONSTANTS FAULT = "aliased" DEPTH = 4 Planes = {1, 2} WingNames = {"a", "b"} KINDS = {"wing", "airfoil", "control", "connect", "cg", "refs", "spoil"}
INVARIANTS PartsAsSaid PlacedAsSaid CentreAsSaid RefsAsSaid
CHECK_DEADLOCK FALSE
