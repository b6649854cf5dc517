------------------------------- MODULE Assembly -------------------------------
(***************************************************************************)
(* Building an airplane call by call: what it is after any sequence of     *)
(* construction calls. Descriptions are those of Geometry.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* An airplane starts with nothing, or with what a file describes. *)
Bare(step) ==
    IF "base" \in DOMAIN step THEN step.base
    ELSE [wings |-> << >>, props |-> << >>] @@ (IF "position" \in DOMAIN step THEN [position |-> step.position] ELSE << >>)
PlaceIn(seq, name) == LET js == {j \in 1..Len(seq) : seq[j].name = name}
                      IN IF js = {} THEN 0 ELSE CHOOSE j \in js : TRUE
(* A part of a name already there takes the place of the old one. *)
PutPart(seq, r) == LET j == PlaceIn(seq, r.name) IN IF j = 0 THEN Append(seq, r) ELSE [seq EXCEPT ![j] = r]
ChangePart(seq, name, G(_)) == [j \in 1..Len(seq) |-> IF seq[j].name = name THEN G(seq[j]) ELSE seq[j]]
Setting(f, v, r) == (f :> v) @@ r
Entry(r, f, default) == IF f \in DOMAIN r THEN r[f] ELSE default
Zero3 == << <<0, 1>>, <<0, 1>>, <<0, 1>> >>
Coordinates == <<"x", "y", "z">>

(* One construction call. *)
Stepped(D, st) ==
    CASE st.do = "wing" -> [D EXCEPT !.wings = PutPart(@, st.w)]
      [] st.do = "airfoil" ->
            LET G(w) == Setting("airfoils", Append(Entry(w, "airfoils", << >>), st.a), w)
            IN [D EXCEPT !.wings = ChangePart(@, st.name, G)]
      [] st.do = "control" ->
            LET G(w) == Setting("control", st.c, w) IN [D EXCEPT !.wings = ChangePart(@, st.name, G)]
      [] st.do = "connect" ->
            LET G(w) == Setting("parent", st.parent, w) IN [D EXCEPT !.wings = ChangePart(@, st.name, G)]
      [] st.do = "prop" -> [D EXCEPT !.props = PutPart(@, st.p)]
      [] st.do = "blade" ->
            LET G(p) == Setting("airfoils", PutPart(Entry(p, "airfoils", << >>), st.a), p)
            IN [D EXCEPT !.props = ChangePart(@, st.name, G)]
      [] st.do = "cg" ->
            LET old == Entry(D, "cg", Zero3)
            IN Setting("cg", [c \in 1..3 |-> Entry(st.part, Coordinates[c], old[c])], D)
      [] st.do = "refs" ->
            st.part @@ [f \in (DOMAIN D) \ {"lat_ref", "long_ref"} |-> D[f]]
      [] OTHER -> D
(* The airplane after the first n of these calls about it. *)
RECURSIVE Assembled(_, _)
Assembled(steps, n) ==
    IF steps[n].op = "airplane" THEN Bare(steps[n]) ELSE Stepped(Assembled(steps, n - 1), steps[n])
=============================================================================
