SPECIFICATION Spec
CONSTANTS FAULT = "liftbefore" ANGLES = 2 SECTIONS = 2
INVARIANTS FirstToStall NoStallIsTold FlowKept
CHECK_DEADLOCK FALSE
