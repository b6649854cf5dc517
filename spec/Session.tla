-------------------------------- MODULE Session --------------------------------
(***************************************************************************)
(* A user's session with several models. An analysis is an uninterpreted   *)
(* function of its question (airplane, analysis, arguments with what was   *)
(* left out replaced by its default). The state below is what an           *)
(* implementation can carry from one call to the next: the registers in    *)
(* which a model keeps the flow, the control inputs, the propeller state   *)
(* and the starting point of its iterations, the caller's dictionaries,    *)
(* and the results it has handed out. FAULT plants one of the ways of      *)
(* getting this wrong; "none" is the specified behaviour.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS FAULT, DEPTH

Models == {1, 2}
Planes == {"A", "B"}
Analyses == {"solve", "sweep"}            \* sweep: solves at varied flows
Flows == {"f1", "f2"}
Inputs == {"c1"}
Points == {"j1"}
None == "none"
Dicts == {"d1", "d2"}                     \* the caller's flow dictionaries
Original == [d \in Dicts |-> IF d = "d1" THEN "f1" ELSE "f2"]

VARIABLES plane,      \* the airplane of each model, or None
          reg,        \* registers of each model
          dicts,      \* contents of the caller's dictionaries
          hist        \* calls so far, with the answers as they are seen now

vars == <<plane, reg, dicts, hist>>
Fresh == [flow |-> None, ctl |-> None, prop |-> None, warm |-> None, inner |-> None]

Default(field) == CASE field = "flow" -> "f0" [] field = "ctl" -> "c0" [] field = "prop" -> "j0"
(* What the specified answer to a call is. *)
Meaning(p, op, flow, ctl, prop) ==
    <<p, op, IF flow = None THEN Default("flow") ELSE flow, IF ctl = None THEN Default("ctl") ELSE ctl,
      IF prop = None THEN Default("prop") ELSE prop>>

Init == /\ plane = [m \in Models |-> None]
        /\ reg = [m \in Models |-> Fresh]
        /\ dicts = Original
        /\ hist = << >>

New(m, p) ==
    /\ plane[m] = None
    /\ plane' = [plane EXCEPT ![m] = p]
    /\ reg' = [reg EXCEPT ![m] = Fresh]
    /\ UNCHANGED <<dicts, hist>>

(* The register a model uses: its own, unless models share state. *)
Own(m) == IF FAULT = "sharedmodels" THEN 1 ELSE m
Used(given, kept, fault) == IF given = None /\ FAULT = fault THEN kept ELSE given
Spoil(d, op) == IF d # None /\ op = "sweep" THEN [dicts EXCEPT ![d] = @ \o "+"] ELSE dicts

Call(m, op, d, ctl, prop, fails) ==
    LET r == reg[Own(m)]
        flow == IF d = None THEN None ELSE dicts[d]
        usedflow == Used(flow, r.flow, "keepflow")
        usedctl == Used(ctl, r.ctl, "keepctl")
        usedprop == Used(prop, r.prop, "keepprop")
        raw == Meaning(IF FAULT = "sharedmodels" /\ r.inner # None THEN r.inner ELSE plane[m], op, usedflow, usedctl, usedprop)
        warm == IF FAULT = "warm" /\ r.warm \notin {None, prop} THEN <<raw, r.warm>> ELSE raw
        answer == IF FAULT = "giveinternals" /\ r.inner = "scribbled" THEN <<raw, "scribbled">> ELSE warm
        ideal == Meaning(plane[m], op, IF d = None THEN None ELSE Original[d], ctl, prop)
        (* the registers now hold this call's state *)
        left == [flow |-> IF usedflow = None THEN "f0" ELSE usedflow, ctl |-> IF usedctl = None THEN "c0" ELSE usedctl,
                 prop |-> IF usedprop = None THEN "j0" ELSE usedprop, warm |-> prop,
                 inner |-> IF FAULT = "sharedmodels" THEN plane[m] ELSE r.inner]
        (* a call that fails half way, with registers updated by its first part *)
        half == [r EXCEPT !.flow = left.flow, !.prop = IF FAULT = "halfway" THEN "bad" ELSE @]
        (* a retained array is overwritten by the next call *)
        aged == IF FAULT = "alias"
                THEN [k \in DOMAIN hist |-> IF hist[k].m = m THEN [hist[k] EXCEPT !.now = answer] ELSE hist[k]]
                ELSE hist
    IN /\ plane[m] # None
       /\ Len(hist) < DEPTH
       /\ plane' = plane
       /\ dicts' = CASE FAULT = "dirtyargs" -> Spoil(d, op)
                     [] FAULT = "noexcrestore" /\ fails -> Spoil(d, op)
                     [] OTHER -> dicts
       /\ reg' = [reg EXCEPT ![Own(m)] = IF fails THEN half ELSE left]
       /\ hist' = IF fails
                  THEN Append(hist, [m |-> m, q |-> ideal, answer |-> <<"raised">>, now |-> <<"raised">>, fails |-> TRUE])
                  ELSE Append(aged, [m |-> m, q |-> ideal,
                                     answer |-> IF FAULT = "halfway" /\ r.prop = "bad" THEN <<answer, "bad">> ELSE answer,
                                     now |-> IF FAULT = "halfway" /\ r.prop = "bad" THEN <<answer, "bad">> ELSE answer,
                                     fails |-> FALSE])

(* The caller changes a result it was given. *)
Scribble(k) ==
    /\ Len(hist) < DEPTH
    /\ ~hist[k].fails
    /\ reg' = [reg EXCEPT ![Own(hist[k].m)].inner = IF FAULT = "giveinternals" THEN "scribbled" ELSE @]
    /\ hist' = [hist EXCEPT ![k].now = hist[k].answer]
    /\ UNCHANGED <<plane, dicts>>

Next == \/ \E m \in Models, p \in Planes : New(m, p)
        \/ \E m \in Models, op \in Analyses, d \in Dicts \cup {None}, c \in Inputs \cup {None},
              j \in Points \cup {None}, f \in BOOLEAN : Call(m, op, d, c, j, f)
        \/ \E k \in DOMAIN hist : Scribble(k)
Spec == Init /\ [][Next]_vars

(* P08 *)
AnswersAreFunctions == \A k \in DOMAIN hist : hist[k].fails \/ hist[k].answer = hist[k].q
(* P09 *)
InputsUntouched == dicts = Original
ResultsStay == \A k \in DOMAIN hist : hist[k].now = hist[k].answer
(* P21: a failed call is as if it had not been made. *)
NextAnswerUnaffected == AnswersAreFunctions
===============================================================================
