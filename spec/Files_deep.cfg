SPECIFICATION Spec
CONSTANTS FAULT = "none" DEPTH = 5
INVARIANTS FileHoldsAnswer OnlyTheNamedFile NameChangesNothing
CHECK_DEADLOCK FALSE
