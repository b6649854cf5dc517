SPECIFICATION Spec
CONSTANTS FAULT = "changesanswer" DEPTH = 3
INVARIANTS FileHoldsAnswer OnlyTheNamedFile NameChangesNothing
CHECK_DEADLOCK FALSE
