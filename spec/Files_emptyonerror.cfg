SPECIFICATION Spec
CONSTANTS FAULT = "emptyonerror" DEPTH = 3
INVARIANTS FileHoldsAnswer OnlyTheNamedFile NameChangesNothing
CHECK_DEADLOCK FALSE
