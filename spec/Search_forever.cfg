SPECIFICATION Spec
CONSTANTS FAULT = "forever" POINTS = 2 RANGE = 1 BOUND = 3
PROPERTY Ends
CHECK_DEADLOCK FALSE
