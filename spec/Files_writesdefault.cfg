SPECIFICATION Spec
CONSTANTS FAULT = "writesdefault" DEPTH = 3
INVARIANTS FileHoldsAnswer OnlyTheNamedFile NameChangesNothing
CHECK_DEADLOCK FALSE
