SPECIFICATION Spec
CONSTANTS FAULT = "onlypositive" POINTS = 4 RANGE = 2 BOUND = 3
INVARIANTS TargetsAreMet FailuresAreTold NothingToMeet
CHECK_DEADLOCK FALSE
