-------------------------------- MODULE Search --------------------------------
(***************************************************************************)
(* The searches for a flight state (lift targeting, pitch trim). How the   *)
(* next guess is made is left open: any point may be tried next, so this   *)
(* covers every secant, Newton or bracketing method, on every load curve.  *)
(* What is specified is when a search may stop and what it then says.      *)
(* FAULT plants one way of getting this wrong.                             *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANTS FAULT, POINTS, RANGE, BOUND

Points == 1..POINTS
Abs(x) == IF x < 0 THEN -x ELSE x
Error == 0                                  \* the error bound given by the caller
None == [kind |-> "none"]

VARIABLES miss,      \* how far the load is from the target at every point: the airplane
          named,     \* a file name was given
          at, before, tries,
          others,    \* the inputs the search was told to leave alone
          outcome, file
vars == <<miss, named, at, before, tries, others, outcome, file>>

Init == /\ miss \in [Points -> -RANGE..RANGE]
        /\ named \in BOOLEAN
        /\ at \in Points /\ before = at
        /\ tries = 0
        /\ others = "as given"
        /\ outcome = None
        /\ file = "nothing"

Try == /\ outcome = None
       /\ tries < BOUND \/ FAULT = "forever"
       /\ at' \in Points
       /\ before' = at
       /\ tries' = IF FAULT = "forever" /\ tries = BOUND THEN tries ELSE tries + 1
       /\ UNCHANGED <<miss, named, others, outcome, file>>

Reached == Abs(miss[at]) <= Error
(* A secant step is short when two guesses are close, or when the slope is overrated. *)
MayStop == CASE FAULT = "shortstep" -> tries > 0 /\ Abs(at - before) <= 1
             [] FAULT = "squared" -> Abs(miss[at]) <= 1
             [] FAULT = "onlypositive" -> miss[at] <= Error
             [] OTHER -> Reached
Stop == /\ outcome = None
        /\ MayStop
        /\ outcome' = [kind |-> "state", point |-> IF FAULT = "lastbutone" THEN before ELSE at,
                       others |-> IF FAULT = "moved" THEN "changed" ELSE others]
        /\ file' = IF named THEN "state" ELSE file
        /\ UNCHANGED <<miss, named, at, before, tries, others>>

GiveUp == /\ outcome = None
          /\ tries = BOUND
          /\ FAULT # "forever"
          /\ FAULT = "eager" \/ ~MayStop
          /\ outcome' = IF FAULT = "lastguess" THEN [kind |-> "state", point |-> at, others |-> others]
                        ELSE IF named THEN [kind |-> "error"] ELSE [kind |-> "raised"]
          /\ file' = IF named /\ FAULT # "nofile" THEN "error" ELSE file
          /\ UNCHANGED <<miss, named, at, before, tries, others>>

Next == Try \/ Stop \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ WF_vars(Stop)

(* P12: a state that is returned meets the target, and only moves what the search may move. *)
TargetsAreMet == outcome.kind = "state" => Abs(miss[outcome.point]) <= Error /\ outcome.others = "as given"
(* A failure is an exception, or an error in the named file; the file says what was returned. *)
FailuresAreTold == /\ outcome.kind = "raised" => ~named /\ file = "nothing"
                   /\ outcome.kind = "error" => named /\ file = "error"
                   /\ outcome.kind = "state" => file = (IF named THEN "state" ELSE "nothing")
NothingToMeet == (\A p \in Points : Abs(miss[p]) > Error) => outcome.kind # "state"
Ends == <>(outcome # None)
=============================================================================
