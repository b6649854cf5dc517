---------------------------- MODULE ScenariosProp ----------------------------
(* Scenarios about propellers. *)
EXTENDS ScenariosWing

PropOptions == [Options EXCEPT !.props = <<1, 1, 2>>, !.wings = <<0>>, !.refs = 0]
OneProp(s, o) == One(s, o)
PropAero(s, k) == Aero(s, k)
(* The same call seen through several analyses. *)
Views(m, args) == << Op("dist", m) @@ args, Op("solve", m) @@ args @@ [file |-> "new"], Op("propsolve", m) @@ args >>

ScBlades(id, s) ==
    LET o == MaybeFull(s, PropOptions)
        x == One(s, o)
        a == [aero |-> PropAero(s, 50)]
        b == IF Chance(s, 60, 1, 4) THEN a ELSE a @@ [prop |-> PropState(s, 61)]
        c == [aero |-> PropAero(s, 150), prop |-> [J |-> Pick(<< <<1, 10>>, <<4, 5>>, Q1, <<3, 2>>, <<1, 20>> >>, s, 62)]]
    IN Sc(id, "blades", << x.plane >>, << New(1, 1, x.how) >> \o Views(1, b) \o Views(1, c))

(* Ways of setting the operating point. *)
RateState(s, k) == [rot_per_sec |-> Pick(<< <<30, 1>>, <<45, 1>>, <<80, 1>>, <<20, 1>> >>, s, k)]
PowerState(s, k, rho) ==
    [brake_power |-> IF rho = <<24, 10000>> THEN Pick(<< <<50, 1>>, <<120, 1>>, <<300, 1>>, <<20, 1>> >>, s, k)
                     ELSE Pick(<< <<5000, 1>>, <<12000, 1>>, <<800, 1>>, <<30000, 1>> >>, s, k)]
ThrottleState(s, k) == [electric_throttle |-> Pick(<< <<1, 2>>, <<7, 10>>, Q1, <<2, 5>> >>, s, k)]
ScOperating(id, s) ==
    LET c == Mix(s, 40) % 4
        o == IF c = 2 THEN [PropOptions EXCEPT !.full = TRUE, !.motor = TRUE, !.units = TRUE, !.props = <<1, 1, 2>>]
             ELSE MaybeFull(s, [PropOptions EXCEPT !.motor = Chance(s, 41, 1, 2)])
        x == One(s, o)
        how == IF c = 2 THEN "file" ELSE x.how
        a == PropAero(s, 50)
        st == CASE c = 0 -> RateState(s, 61)
                [] c = 1 -> PowerState(s, 61, a.rho)
                [] c = 2 -> ThrottleState(s, 61)
                [] OTHER -> PropState(s, 61)
        st2 == IF Chance(s, 66, 1, 2) THEN RateState(s, 63) ELSE PropState(s, 64)
        np == Len(x.plane.props)
        mixed == IF np = 2 THEN (x.plane.props[1 + (Mix(s, 65) % 2)].name :> st) @@ st2 ELSE st
        both == IF np = 2 THEN (x.plane.props[1].name :> st) @@ (x.plane.props[2].name :> st2) ELSE (x.plane.props[1].name :> st)
        (* key order of preference: extra entries after the first are ignored *)
        args == << [aero |-> a, prop |-> st], [aero |-> a, prop |-> mixed], [aero |-> a, prop |-> both], [aero |-> a],
                   [aero |-> [V_mag |-> Q0, rho |-> a.rho], prop |-> RateState(s, 67)] >>
        pick == Mix(s, 68) % 4
        chosen == IF c \in {1, 2} /\ pick = 3 THEN args[1] ELSE args[1 + pick]
    IN Sc(id, "operating", << x.plane >>,
          << New(1, 1, how) >> \o Views(1, chosen)
            \o (IF Chance(s, 69, 1, 3) /\ c # 2 THEN Views(1, args[5]) ELSE << >>))
(* An advance ratio and the rotation rate it implies. *)
ScSameRate(id, s) ==
    LET x == One(s, [MaybeFull(s, PropOptions) EXCEPT !.props = <<1>>, !.drop = 0, !.full = TRUE])
        d == x.plane.props[1].diameter
        a == PropAero(s, 50)
        j == Pick(<< <<1, 4>>, <<1, 2>>, <<2, 5>>, <<4, 5>> >>, s, 61)
        rate == <<a.V_mag[1] * d[2] * j[2], a.V_mag[2] * d[1] * j[1]>>
    IN Sc(id, "same_rate", << x.plane >>,
          << New(1, 1, x.how), Op("solve", 1) @@ [aero |-> a, prop |-> [J |-> j], file |-> "new"],
             Op("solve", 1) @@ [aero |-> a, prop |-> [rot_per_sec |-> rate], file |-> "new"] >>)

(* Points behind, beside and ahead of the disks. *)
CloudPoints(s, k, p) ==
    [i \in 1..14 |-> << AddQ(p.pos[1], Pick(<< <<-1, 10>>, <<-1, 1>>, <<-5, 2>>, <<1, 2>>, <<-31, 10>>, <<-2, 5>>, <<-45, 1>>, <<-9, 1>>, <<-160, 1>> >>, s, k + 3 * i)),
                        AddQ(p.pos[2], Pick(<< <<1, 10>>, <<-1, 5>>, <<3, 10>>, <<-2, 5>>, <<1, 1>>, <<11, 50>>, Q0, <<1, 500>>, <<2, 1>> >>, s, k + 3 * i + 1)),
                        AddQ(p.pos[3], Pick(<< <<1, 20>>, <<-3, 20>>, <<1, 4>>, <<-3, 10>>, <<-1, 1>>, <<1, 50>>, <<1, 1000>>, <<-1, 200>> >>, s, k + 3 * i + 2)) >>]
ScSlipstream(id, s) ==
    LET o == [PropOptions EXCEPT !.props = <<1, 2, 3>>, !.full = TRUE]
        x == One(s, o)
        args == [aero |-> PropAero(s, 50), prop |-> PropState(s, 61)]
        pts == CloudPoints(s, 200, x.plane.props[1])
        args2 == [aero |-> PropAero(s, 150)]
    IN Sc(id, "slipstream", << x.plane >>,
          << New(1, 1, x.how), Op("dist", 1) @@ args, Op("propsolve", 1) @@ args @@ [points |-> pts],
             Op("dist", 1) @@ args2, Op("propsolve", 1) @@ args2 @@ [points |-> pts] >>)
ScImmersed(id, s) ==
    LET o == [MaybeFull(s, [Options EXCEPT !.grids = <<3, 4, 5>>, !.wings = <<1, 1, 2>>]) EXCEPT !.props = <<1, 2>>, !.nodes = <<11, 12>>]
        x0 == One(s, o)
        (* sometimes well ahead of everything *)
        x == IF Chance(s, 63, 1, 5)
             THEN [x0 EXCEPT !.plane.props = [j \in 1..Len(x0.plane.props) |->
                                              IF "pos" \in DOMAIN x0.plane.props[j]
                                              THEN [x0.plane.props[j] EXCEPT !.pos[1] = AddQ(@, Pick(<< <<15, 1>>, <<40, 1>> >>, s, 65))]
                                              ELSE x0.plane.props[j]]]
             ELSE x0
        args == [aero |-> IF Chance(s, 62, 1, 3) THEN RateAero(s, 50) ELSE Aero(s, 50), prop |-> PropState(s, 61)]
        ctl == [ctl |-> Controls(s, 70)]
    IN Sc(id, "immersed", << x.plane >>,
          << New(1, 1, x.how), Op("propsolve", 1) @@ args, Op("dist", 1) @@ args @@ ctl, Op("solve", 1) @@ args @@ ctl >>)

OtherTurn(r) == CASE r \in {"CW", "cw"} -> "CCW" [] r \in {"CCW", "ccw"} -> "CW" [] r \in {"1", "1.0"} -> "-1" [] OTHER -> "1"
ScPropLoads(id, s) ==
    LET o == MaybeFull(s, [PropOptions EXCEPT !.props = <<1, 2, 2, 3>>])
        x == One(s, [o EXCEPT !.drop = 0])
        args == [aero |-> PropAero(s, 50)] @@ (IF Chance(s, 62, 1, 4) THEN << >> ELSE [prop |-> PropState(s, 61)])
        turned == [x.plane EXCEPT !.props = [j \in 1..Len(x.plane.props) |-> [x.plane.props[j] EXCEPT !.rot = OtherTurn(@)]]]
    IN Sc(id, "prop_loads", << x.plane, turned >>,
          << New(1, 1, x.how) >> \o Views(1, args) \o << New(2, 2, x.how) >> \o Views(2, args))
=============================================================================
