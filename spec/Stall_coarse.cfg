SPECIFICATION Spec
CONSTANTS FAULT = "coarse" ANGLES = 2 SECTIONS = 2
INVARIANTS FirstToStall NoStallIsTold FlowKept
CHECK_DEADLOCK FALSE
