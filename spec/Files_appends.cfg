SPECIFICATION Spec
CONSTANTS FAULT = "appends" DEPTH = 3
INVARIANTS FileHoldsAnswer OnlyTheNamedFile NameChangesNothing
CHECK_DEADLOCK FALSE
