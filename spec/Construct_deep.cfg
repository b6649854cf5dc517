SPECIFICATION Spec
CONSTANTS FAULT = "none" DEPTH = 5 Planes = {1} WingNames = {"a", "b"} KINDS = {"wing", "airfoil", "control", "connect"}
INVARIANTS PartsAsSaid PlacedAsSaid CentreAsSaid RefsAsSaid
CHECK_DEADLOCK FALSE
