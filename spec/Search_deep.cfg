SPECIFICATION Spec
CONSTANTS FAULT = "none" POINTS = 5 RANGE = 2 BOUND = 5
INVARIANTS TargetsAreMet FailuresAreTold NothingToMeet
PROPERTY Ends
CHECK_DEADLOCK FALSE
