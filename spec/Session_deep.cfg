CONSTANTS FAULT = "none"
 DEPTH = 3
SPECIFICATION Spec
INVARIANTS AnswersAreFunctions InputsUntouched ResultsStay
CHECK_DEADLOCK FALSE
