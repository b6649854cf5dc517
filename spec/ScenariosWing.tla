---------------------------- MODULE ScenariosWing ----------------------------
(* Scenarios about wings: geometry, sections, airfoils, controls, loads. *)
EXTENDS Pools

Sc(id, kind, planes, calls) == [id |-> id, kind |-> kind, planes |-> planes, calls |-> calls]
New(m, p, how) == [op |-> "new", m |-> m, plane |-> p, how |-> how]
Op(op, m) == [op |-> op, m |-> m]
(* A description all of whose entries are present can also come from a file. *)
MaybeFull(s, o) == IF Chance(s, 90, 1, 3) THEN [o EXCEPT !.full = TRUE] ELSE [o EXCEPT !.drop = Mix(s, 91) % 3]
One(s, o) == LET p == PlaneEntry(s, o) IN [plane |-> p, how |-> HowOf(s, o)]

ScPlacement(id, s) ==
    LET o == MaybeFull(s, [Options EXCEPT !.wings = <<1, 2, 3, 4, 5>>, !.dihedrals = @ \o <<<<90, 1>>, <<120, 1>>>>])
        x == One(s, o)
    IN Sc(id, "placement", << x.plane >>, << New(1, 1, x.how), Op("positions", 1) >>)

Spacing(s) == Pick(<< << >>, [cosine |-> TRUE], [cosine |-> FALSE] >>, s, 95)
ScSections(id, s) ==
    LET o == MaybeFull(s, [Options EXCEPT !.grids = <<2, 3, 5, 8, 13, 40, 1>>, !.dihedrals = @ \o <<<<90, 1>>, <<100, 1>>>>,
                                          !.wings = <<1, 2, 3, 4>>])
        x == One(s, o)
    IN Sc(id, "sections", << x.plane >>, << New(1, 1, x.how), Op("grid", 1) @@ Spacing(s), Op("grid", 1) >>)

ScAirfoils(id, s) ==
    LET o == MaybeFull(s, [Options EXCEPT !.grids = <<3, 4, 7>>])
        x == One(s, o)
    IN Sc(id, "airfoils", << x.plane >>,
          << New(1, 1, x.how), Op("grid", 1) @@ Spacing(s),
             Op("dist", 1) @@ [aero |-> Aero(s, 50)] >>)

(* A surface whose ends coincide exactly with control points. *)
EdgeControls == << [span |-> <<<<1, 8>>, <<7, 8>>>>], [span |-> <<<<3, 8>>, <<5, 8>>>>], [span |-> <<<<1, 8>>, <<5, 8>>>>],
                   [span |-> <<<<1, 4>>, <<3, 4>>>>] >>
ScControlEdges(id, s) ==
    LET o == [Options EXCEPT !.grids = <<4>>, !.wings = <<1>>, !.control = 4, !.full = TRUE]
        x == One(s, o)
        c == x.plane.wings[1].control
        e == Pick(EdgeControls, s, 96)
        p == [x.plane EXCEPT !.wings[1].control = e @@ c]
    IN Sc(id, "control_edges", << p >>,
          << New(1, 1, x.how), Op("grid", 1) @@ [cosine |-> FALSE],
             Op("llsolve", 1) @@ [cosine |-> FALSE, aero |-> Aero(s, 50), ctl |-> Controls(s, 60)] >>)
ScControls(id, s) ==
    LET o == MaybeFull(s, [Options EXCEPT !.grids = <<3, 4, 5>>, !.wings = <<1, 1, 2>>, !.control = 4])
        x == One(s, o)
        a == Aero(s, 50)
    IN Sc(id, "controls", << x.plane >>,
          << New(1, 1, x.how), Op("grid", 1) @@ Spacing(s),
             Op("solve", 1) @@ [aero |-> a, ctl |-> Controls(s, 60)],
             Op("dist", 1) @@ [aero |-> a, ctl |-> Controls(s, 70)],
             Op("llsolve", 1) @@ [aero |-> a, ctl |-> [elevator |-> Pick(Inputs, s, 80), flap |-> Pick(Inputs, s, 81)]] >>)

ScLoads(id, s) ==
    LET o == MaybeFull(s, [Options EXCEPT !.grids = <<2, 3, 4, 5, 1>>])
        x == One(s, o)
        n == Mix(s, 97) % 4
        a == Aero(s, 50)
        big == Chance(s, 98, 1, 12)
        y == IF big THEN One(s, [o EXCEPT !.grids = <<10>>, !.wings = <<1>>]) ELSE x
    IN Sc(id, "loads", << y.plane >>,
          << New(1, 1, y.how),
             Op("solve", 1) @@ [aero |-> a, ctl |-> Controls(s, 60)],
             Op("dist", 1) @@ [aero |-> a, ctl |-> Controls(s, 60)],
             CASE n = 0 -> Op("llsolve", 1) @@ [aero |-> a, cosine |-> FALSE]
               [] n = 1 -> Op("llsolve", 1)
               [] n = 2 -> Op("solve", 1)
               [] OTHER -> Op("llsolve", 1) @@ [aero |-> RateAero(s, 70), ctl |-> Controls(s, 80)] >>)
Steep == << <<35, 1>>, <<-48, 1>>, <<62, 1>>, <<-77, 1>>, <<86, 1>>, <<105, 1>>, <<-130, 1>>, <<171, 1>>, <<-40, 1>> >>
SteepAero(s, k) ==
    LET c == Mix(s, k + 9) % 3
        a == Aero(s, k)
        al == [alpha |-> Pick(Steep, s, k + 10)]
        be == [beta |-> Pick(Steep, s, k + 11)]
    IN CASE c = 0 -> al @@ a [] c = 1 -> be @@ a [] OTHER -> al @@ be @@ a
ScFlow(id, s) ==
    LET o == MaybeFull(s, [Options EXCEPT !.grids = <<2, 3, 4>>, !.wings = <<1, 1, 2>>])
        x == One(s, o)
        n == CountSections(x.plane.wings, Len(x.plane.wings))
    IN Sc(id, "flow", << x.plane >>,
          << New(1, 1, x.how),
             Op("solve", 1) @@ [aero |-> RateAero(s, 50)],
             Op("llsolve", 1) @@ [aero |-> IF Chance(s, 64, 1, 3) THEN SteepAero(s, 40) ELSE LocalAero(s, 70, n)],
             Op("solve", 1) @@ [aero |-> [V_mag |-> Pick(Speeds, s, 60), rho |-> Pick(Densities, s, 61),
                                          alpha |-> Pick(<< <<20, 1>>, <<-15, 1>>, <<12, 1>> >>, s, 62),
                                          beta |-> Pick(<< <<25, 1>>, <<-18, 1>>, <<9, 1>> >>, s, 63)]],
             Op("llsolve", 1) @@ [aero |-> LocalAero(s, 170, n)] >>)
ScReferences(id, s) ==
    LET o == MaybeFull(s, [Options EXCEPT !.wings = <<1, 2, 3, 4>>, !.grids = <<2, 3, 5, 9>>])
        p0 == PlaneEntry(s, o)
        (* the first wing is sometimes not a main one *)
        ws == p0.wings
        p1 == IF Len(ws) > 1 /\ Chance(s, 92, 1, 2)
              THEN [p0 EXCEPT !.wings = [j \in 1..Len(ws) |-> IF Chance(s, 93 + j, 1, 2) THEN With("is_main", j = 1 + (Mix(s, 94) % Len(ws)), ws[j]) ELSE ws[j]]]
              ELSE p0
        (* the driver's answers for the derivatives tell which reference values are used *)
        p == p1
        nomain == \A j \in 1..Len(p.wings) : "is_main" \in DOMAIN p.wings[j] /\ ~p.wings[j].is_main
        q == IF nomain THEN [p EXCEPT !.wings[1] = With("is_main", TRUE, @)] ELSE p
    IN Sc(id, "references", << q >>, << New(1, 1, HowOf(s, o)), Op("grid", 1) >>)
=============================================================================
