SPECIFICATION Spec
CONSTANTS FAULT = "none" ANGLES = 2 SECTIONS = 2
INVARIANTS FirstToStall NoStallIsTold FlowKept
PROPERTY Ends
CHECK_DEADLOCK FALSE
