SPECIFICATION Spec
CONSTANTS FAULT = "lasttable" DEPTH = 3
INVARIANTS FileHoldsAnswer OnlyTheNamedFile NameChangesNothing
CHECK_DEADLOCK FALSE
