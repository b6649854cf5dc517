CONSTANTS FAULT = "keepctl"
 DEPTH = 2
SPECIFICATION Spec
INVARIANTS AnswersAreFunctions InputsUntouched ResultsStay
CHECK_DEADLOCK FALSE
