SPECIFICATION Spec
CONSTANTS FAULT = "endofsweep" ANGLES = 2 SECTIONS = 2
INVARIANTS FirstToStall NoStallIsTold FlowKept
CHECK_DEADLOCK FALSE
