--------------------------------- MODULE Files ---------------------------------
(***************************************************************************)
(* Files an analysis writes: what a name on disk holds after any history   *)
(* of calls, with and without names, that succeed or cannot be answered.   *)
(* FAULT plants one way of getting this wrong.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS FAULT, DEPTH

Names == {"x", "y"}
Questions == {"a", "b"}
Groups == {"wing", "prop"}                  \* a distribution has a table for each
Nothing == << >>
VARIABLES disk, hist
vars == <<disk, hist>>
NoName == "none"
Default == "x"                              \* where a careless analysis would write

Content(q) == [g \in Groups |-> <<q, g>>]
Answer(q, named) == IF FAULT = "changesanswer" /\ named THEN <<q, "rounded">> ELSE <<q>>

Init == /\ disk \in [Names -> {Nothing, <<"old">>}]
        /\ hist = << >>

(* What the named file becomes. *)
Written(old, q, fails) ==
    CASE fails /\ FAULT = "keepsold" -> old
      [] fails /\ FAULT = "emptyonerror" -> <<"file", q>>
      [] fails -> <<"error", q>>
      [] FAULT = "appends" -> old \o <<"file", q>>
      [] FAULT = "lasttable" -> <<"file", q, "prop only">>
      [] FAULT = "notreplaced" /\ old # Nothing -> old
      [] OTHER -> <<"file", q>>

Call(q, name, fails) ==
    LET target == IF name = NoName /\ FAULT = "writesdefault" THEN Default ELSE name
        raised == fails /\ name = NoName
    IN /\ Len(hist) < DEPTH
       /\ disk' = IF target = NoName \/ raised THEN disk ELSE [disk EXCEPT ![target] = Written(@, q, fails)]
       /\ hist' = Append(hist, [q |-> q, name |-> name, fails |-> fails,
                                answer |-> IF fails THEN (IF raised THEN <<"raised">> ELSE <<"error", q>>)
                                           ELSE Answer(q, name # NoName),
                                was |-> disk])
Next == \E q \in Questions, n \in Names \cup {NoName}, f \in BOOLEAN : Call(q, n, f)
Spec == Init /\ [][Next]_vars

Last == hist[Len(hist)]
(* P14 *)
FileHoldsAnswer ==
    Len(hist) > 0 /\ Last.name # NoName =>
        disk[Last.name] = IF Last.fails THEN <<"error", Last.q>> ELSE <<"file", Last.q>>
OnlyTheNamedFile == Len(hist) > 0 => \A n \in Names : n # Last.name => disk[n] = Last.was[n]
NameChangesNothing == Len(hist) > 0 /\ ~Last.fails => Last.answer = <<Last.q>>
=============================================================================
