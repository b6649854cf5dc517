SPECIFICATION Spec
CONSTANTS FAULT = "moved" POINTS = 4 RANGE = 2 BOUND = 3
INVARIANTS TargetsAreMet FailuresAreTold NothingToMeet
CHECK_DEADLOCK FALSE
