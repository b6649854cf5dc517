SPECIFICATION Spec
CONSTANTS FAULT = "none" DEPTH = 5 Planes = {1} WingNames = {"a", "b", "c"} KINDS = {"wing", "connect"}
INVARIANTS PartsAsSaid PlacedAsSaid CentreAsSaid RefsAsSaid
CHECK_DEADLOCK FALSE
