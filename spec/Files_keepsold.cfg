SPECIFICATION Spec
CONSTANTS FAULT = "keepsold" DEPTH = 3
INVARIANTS FileHoldsAnswer OnlyTheNamedFile NameChangesNothing
CHECK_DEADLOCK FALSE
