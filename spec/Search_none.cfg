SPECIFICATION Spec
CONSTANTS FAULT = "none" POINTS = 4 RANGE = 2 BOUND = 3
INVARIANTS TargetsAreMet FailuresAreTold NothingToMeet
PROPERTY Ends
CHECK_DEADLOCK FALSE
