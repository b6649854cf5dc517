--------------------------- MODULE ScenariosAssembly ---------------------------
(***************************************************************************)
(* Histories of construction calls: one airplane, or two built alternately,*)
(* by any sequence of calls that its state so far allows.                  *)
(***************************************************************************)
EXTENDS ScenariosAnalyses, Assembly

AssemblyOptions(s) == [Options EXCEPT !.grids = <<2, 3>>, !.nodes = <<11, 12>>, !.drop = Mix(s, 91) % 3, !.main = FALSE, !.propfiles = FALSE]
SideOf(w) == IF "side" \in DOMAIN w THEN w.side ELSE "both"
ParentOf(w) == IF "parent" \in DOMAIN w THEN w.parent ELSE ""
Sided(ws) == [j \in 1..Len(ws) |-> With("side", SideOf(ws[j]), ws[j])]
Fits(child, parent) == SideOf(parent) = "both" \/ SideOf(parent) = SideOf(child)
NamedIn(ws, name) == ws[CHOOSE j \in 1..Len(ws) : ws[j].name = name]
Childless(D, name) == \A j \in 1..Len(D.wings) : ParentOf(D.wings[j]) # name
RECURSIVE Above(_, _)
(* The wings that a wing hangs on. *)
Above(D, name) == LET u == ParentOf(NamedIn(D.wings, name)) IN IF u = "" THEN {} ELSE {u} \cup Above(D, u)
IndexIn(seq, x) == CHOOSE j \in 1..Len(seq) : seq[j] = x

(* Parts that a file described are reached by their names only. *)
Own(parts) == SelectSeq(parts, LAMBDA r : "id" \notin DOMAIN r)
AddWingStep(D, names, s, o) ==
    LET free == SelectSeq(names, LAMBDA nm : Childless(D, nm))
        nm == Pick(free, s, 1)
        others == SelectSeq(Sided(D.wings), LAMBDA v : v.name # nm)
        e == With("name", nm, WingEntry(s, IndexIn(names, nm), others, o))
        (* a dropped side means both *)
        ok == ParentOf(e) = "" \/ Fits(e, NamedIn(D.wings, ParentOf(e)))
    IN [do |-> "wing", w |-> Without(IF ok THEN e ELSE With("parent", "", e), {"airfoils", "control", "id"})]
AirfoilStep(D, s, o) ==
    [do |-> "airfoil", name |-> Pick(Own(D.wings), s, 1).name,
     a |-> [end |-> Pick(<<"root", "tip", "both", "unsaid">>, s, 2), name |-> Pick(AirfoilNames, s, 3)]
           @@ (IF Chance(s, 4, 1, 6) THEN << >> ELSE [p |-> SectionOf(s, 5, o)])]
ControlStep(D, s, o) == [do |-> "control", name |-> Pick(Own(D.wings), s, 1).name, c |-> ControlEntry(s, 2, o)]
ConnectStep(D, s) ==
    LET w == Pick(Own(D.wings), s, 1)
        may == SelectSeq(Own(D.wings), LAMBDA v : v.name # w.name /\ Fits(w, v) /\ w.name \notin Above(D, v.name))
        free == Len(may) = 0 \/ Chance(s, 2, 1, 4)
    IN [do |-> "connect", name |-> w.name, parent |-> IF free THEN "" ELSE Pick(may, s, 3).name]
AddPropStep(D, names, s, o) ==
    LET j == 1 + (Mix(s, 1) % 2)
    IN [do |-> "prop", p |-> With("name", names[j], Without(PropEntry(s, j, o), {"airfoils"}))]
(* A blade's airfoils: each name has its place. *)
BladeSpots == << <<"in", "root">>, <<"out", "Tip">>, <<"NACA0012", <<2, 5>>>>, <<"mid", <<7, 10>>>> >>
BladeStep(D, s, o) ==
    LET b == Pick(BladeSpots, s, 2)
    IN [do |-> "blade", name |-> Pick(Own(D.props), s, 1).name, a |-> [name |-> b[1], at |-> b[2], p |-> SectionOf(s, 3, o)]]
CentreStep(s) ==
    [do |-> "cg", part |-> LET full == [x |-> Between(s, 1, -2, 2, 8), y |-> Between(s, 2, -1, 1, 16), z |-> Between(s, 3, -1, 1, 8)]
                               less == DropSome(full, <<"x", "y", "z">>, s, 4, 2)
                           IN IF DOMAIN less = {} THEN full ELSE less]
RefsStep(s) ==
    [do |-> "refs", part |-> DropSome([lat_ref |-> Between(s, 1, 1, 12, 4), long_ref |-> Between(s, 2, 1, 3, 8)], <<"lat_ref", "long_ref">>, s, 3, 2)]
(* What the airplane built so far allows next. *)
NextStep(D, wn, pn, s, o, kinds) ==
    LET nw == Len(Own(D.wings))
        np == Len(Own(D.props))
        c == Mix(s, 700) % 16
        wings == "wings" \in kinds
        props == "props" \in kinds
        t == Mix(s, 701)
    IN CASE wings /\ (nw = 0 \/ c < 3) -> AddWingStep(D, wn, t, o)
         [] props /\ (np = 0 \/ (c < 5 /\ ~wings) \/ c = 3) -> AddPropStep(D, pn, t, o)
         [] nw > 0 /\ c \in 4..7 -> AirfoilStep(D, t, o)
         [] nw > 0 /\ c \in {8, 9} -> ControlStep(D, t, o)
         [] nw > 1 /\ c \in {10, 11} -> ConnectStep(D, t)
         [] np > 0 /\ c \in 5..13 -> BladeStep(D, t, o)
         [] c = 15 -> RefsStep(t)
         [] OTHER -> CentreStep(t)
(* Looks, models of the airplane so far, and the caller's own use of its objects, now and then. *)
Between0(m, D, s) ==
    LET r == Mix(s, 705) % 12
    IN CASE r < 3 -> << Op("look", m) >>
         [] r = 3 -> << Op("spoil", m) >>
         [] r = 4 -> << [op |-> "new", m |-> 20 + m, how |-> "built", built |-> m] >>
                     \o (IF Len(D.wings) > 0 THEN << Op("positions", 20 + m), Op("grid", 20 + m) >> ELSE << >>)
                     \o (IF Chance(s, 706, 1, 2) THEN << Op("solve", 20 + m) @@ [aero |-> Aero(s, 50)] >> ELSE << >>)
         [] OTHER -> << >>
RECURSIVE Building(_, _, _, _, _, _, _, _)
(* D: the airplanes so far. left: how many steps are still to be made. *)
Building(s, Ds, left, wn, pn, o, kinds, acc) ==
    IF left = 0 THEN [calls |-> acc, Ds |-> Ds]
    ELSE LET t == Mix(s, 5000 + left)
             m == 1 + (Mix(t, 1) % Len(Ds))
             st == NextStep(Ds[m], wn, pn, t, o, kinds[m])
             D2 == [Ds EXCEPT ![m] = Stepped(@, st)]
         IN Building(s, D2, left - 1, wn, pn, o, kinds, acc \o << Op("step", m) @@ st >> \o Between0(m, D2[m], t))
Shown3(m, D, s) ==
    LET model == 10 + m
        args == [aero |-> Aero(s, 50)] @@ (IF Len(D.wings) > 0 THEN [ctl |-> Controls(s, 60)] ELSE << >>)
                @@ (IF Len(D.props) > 0 THEN [prop |-> PropState(s, 70)] ELSE << >>)
    IN IF Len(D.wings) + Len(D.props) = 0 THEN << >>
       ELSE << [op |-> "new", m |-> model, how |-> "built", built |-> m] >>
            \o (IF Len(D.wings) > 0 THEN << Op("positions", model), Op("grid", model) >> ELSE << >>)
            \o << Op("dist", model) @@ args, Op("solve", model) @@ args @@ [file |-> "new"] >>
ScAssembly(id, s) ==
    LET o == AssemblyOptions(s)
        n == IF Chance(s, 1, 1, 3) THEN 2 ELSE 1
        kinds == [m \in 1..n |-> Pick(<< {"wings"}, {"wings"}, {"wings"}, {"wings", "props"}, {"props"} >>, s, 10 + m)]
        fromfile == n = 1 /\ Chance(s, 18, 1, 3)
        described == LET p == PlaneEntry(s, [o EXCEPT !.full = TRUE, !.wings = <<0, 1, 2, 2>>, !.props = <<0, 0, 1>>])
                     IN Without([p EXCEPT !.props = [j \in 1..Len(p.props) |-> With("id", j, p.props[j])]], {"held"})
        bare == [m \in 1..n |-> Op("airplane", m) @@ (IF fromfile THEN [base |-> described] ELSE IF Chance(s, 20 + m, 1, 3) THEN [position |-> << Between(s, 31, -2, 2, 4), Between(s, 32, -1, 1, 4), Between(s, 33 + m, -2, 2, 4) >>] ELSE << >>)]
        wn == Pick(WingNameSets, s, 12)
        b == Building(s, [m \in 1..n |-> Bare(bare[m])], n * (4 + (Mix(s, 2) % 12)), SubSeq(wn, 1, 3), Pick(PropNameSets, s, 13), o, kinds, bare)
        ends == [m \in 1..n |-> << Op("look", m) >> \o Shown3(m, b.Ds[m], Mix(s, 800 + m))]
        held == IF fromfile THEN "list" ELSE Pick(<<"list", "list", "list", "tuple", "lists", "ints", "array">>, s, 14)
    IN Sc(id, "assembly", << [wings |-> << >>, props |-> << >>, held |-> held] >>,
          b.calls \o (IF n = 1 THEN ends[1] ELSE ends[1] \o ends[2]))
=============================================================================
