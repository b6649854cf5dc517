SPECIFICATION Spec
CONSTANTS FAULT = "forever" ANGLES = 1 SECTIONS = 2
PROPERTY Ends
CHECK_DEADLOCK FALSE
