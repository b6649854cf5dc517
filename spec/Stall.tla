--------------------------------- MODULE Stall ---------------------------------
(***************************************************************************)
(* The sweep for the stall: angles of attack from zero upwards until some  *)
(* section's lift exceeds its maximum; around it, the search for the speed *)
(* at which the lift at stall carries a weight. Every pattern of stalled   *)
(* sections is explored. FAULT plants one way of getting this wrong.       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS FAULT, ANGLES, SECTIONS

Angles == 0..ANGLES
Secs == 1..SECTIONS
None == [kind |-> "none"]
VARIABLES over,      \* by how much each section exceeds its maximum at each angle (<= 0: it does not)
          named, a, flow, outcome
vars == <<over, named, a, flow, outcome>>

Over(x, s) == over[x][s] > 0
Stalled(x) == {s \in Secs : IF FAULT = "atmaximum" THEN over[x][s] >= 0 ELSE Over(x, s)}
First(S) == CHOOSE s \in S : \A t \in S : s <= t
Worst(x) == CHOOSE s \in Secs : \A t \in Secs : over[x][s] > over[x][t] \/ (over[x][s] = over[x][t] /\ s <= t)

Init == /\ over \in [Angles -> [Secs -> -1..2]]
        /\ named \in BOOLEAN
        /\ a = IF FAULT = "startslate" THEN 1 ELSE 0
        /\ flow = "given"
        /\ outcome = None
Step == IF FAULT = "coarse" THEN 2 ELSE 1
Sweep == /\ outcome = None
         /\ Stalled(a) = {}
         /\ a + Step <= ANGLES \/ FAULT = "forever"
         /\ a' = IF a + Step <= ANGLES THEN a + Step ELSE a
         /\ flow' = IF FAULT = "spoilsflow" THEN "swept" ELSE flow
         /\ UNCHANGED <<over, named, outcome>>
Found == /\ outcome = None
         /\ Stalled(a) # {}
         /\ outcome' = [kind |-> "stall", angle |-> a, lift |-> IF FAULT = "liftbefore" THEN a - 1 ELSE a,
                        section |-> IF FAULT = "worst" THEN Worst(a) ELSE First(Stalled(a))]
         /\ UNCHANGED <<over, named, a, flow>>
Never == /\ outcome = None
         /\ Stalled(a) = {}
         /\ a + Step > ANGLES
         /\ FAULT # "forever"
         /\ outcome' = IF FAULT = "endofsweep" THEN [kind |-> "stall", angle |-> a, lift |-> a, section |-> 1]
                       ELSE IF named THEN [kind |-> "error"] ELSE [kind |-> "raised"]
         /\ UNCHANGED <<over, named, a, flow>>
Next == Sweep \/ Found \/ Never
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* P13 *)
FirstToStall ==
    outcome.kind = "stall" =>
        LET x == outcome.angle IN
        /\ \E s \in Secs : Over(x, s)
        /\ \A y \in Angles : y < x => \A s \in Secs : ~Over(y, s)
        /\ Over(x, outcome.section) /\ \A t \in Secs : Over(x, t) => outcome.section <= t
        /\ outcome.lift = x
NoStallIsTold == (outcome.kind \in {"raised", "error"}) =>
                 (\A x \in Angles, s \in Secs : ~Over(x, s)) /\ (outcome.kind = "error" <=> named)
FlowKept == flow = "given"
Ends == <>(outcome # None)
=============================================================================
