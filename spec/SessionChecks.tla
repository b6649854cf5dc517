---------------------------- MODULE SessionChecks ----------------------------
(* Histories: answers are functions of their questions, inputs and results stay. *)
EXTENDS Relations

Ends(ev) == C("the call ends", ev.out # "timeout")
WalkClauses(S, i) == << Ends(S.events[i]) >> \o (IF Asks(S, i) THEN AskedBefore(S, i) ELSE << >>)

RECURSIVE BuiltAt(_, _, _)
BuiltAt(S, m, i) == IF i = 0 THEN 0 ELSE IF S.events[i].op = "new" /\ S.events[i].call.m = m THEN i ELSE BuiltAt(S, m, i - 1)
KeptClauses(S, i) ==
    LET ev == S.events[i]
        b == BuiltAt(S, ev.call.m, i)
    IN << Ends(ev), C("the arguments are left as they were", ev.before = ev.after) >>
       \o (IF b > 0 /\ b < i /\ Has(ev, "given") /\ Has(S.events[b], "given")
           THEN << C("the description is left as it was", ev.given = S.events[b].given) >> ELSE << >>)
       \o (IF ev.op = "recheck"
           THEN LET of == S.events[ev.call.of]
                IN << CIf(Has(of, "shown"), "an earlier result is still the same", Has(of, "shown") => ev.shown_now = of.shown) >>
           ELSE << >>)
       \o (IF Asks(S, i) THEN AskedBefore(S, i) ELSE << >>)
==============================================================================
