SPECIFICATION Spec
CONSTANTS FAULT = "notreplaced" DEPTH = 3
INVARIANTS FileHoldsAnswer OnlyTheNamedFile NameChangesNothing
CHECK_DEADLOCK FALSE
