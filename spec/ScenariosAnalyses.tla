-------------------------- MODULE ScenariosAnalyses --------------------------
(* Scenarios about the analyses: derivatives, targets, stall, aerodynamic    *)
(* centre, files and surfaces.                                               *)
EXTENDS ScenariosRel

AnalysisOptions == [Options EXCEPT !.grids = <<2, 3>>, !.wings = <<1, 1, 2, 2, 3>>, !.nodes = <<11, 12>>, !.control = 3]
AnalysisPlane(s, props) == MaybeFull(s, [AnalysisOptions EXCEPT !.props = props])

(********************************* P11 ************************************)
PertVars == <<"alpha", "beta", "aileron", "elevator", "rudder", "flap", "roll_rate", "pitch_rate", "yaw_rate">>
PertCall(m, args, var, sign) == Op("solve_pert", m) @@ args @@ [var |-> var, sign |-> sign]
DerivOps == <<"derivs", "stab", "ctrl", "damp">>
ScDerivs(id, s, n) ==
    LET o == AnalysisPlane(s, IF n % 4 = 0 THEN <<1, 1, 2>> ELSE <<0>>)
        x == One(s, o)
        np == Len(x.plane.props)
        a == IF Chance(s, 49, 1, 6) THEN (IF Chance(s, 48, 1, 2) THEN << >> ELSE [aero |-> << >>])
             ELSE [aero |-> IF Chance(s, 47, 1, 2) THEN RateAero(s, 50) ELSE Aero(s, 50)]
        c == IF Chance(s, 69, 1, 4) THEN << >> ELSE [ctl |-> Controls(s, 70)]
        j == IF np = 0 \/ Chance(s, 79, 1, 3) THEN << >> ELSE [prop |-> IF Chance(s, 78, 1, 3) THEN RateState(s, 80) ELSE PropState(s, 80)]
        args == a @@ c @@ j
        one == Op("derivs", 1) @@ args
        two == Op(Pick(DerivOps, s, 90), 1) @@ args
    IN Sc(id, "derivatives", << x.plane >>,
          << New(1, 1, x.how), one >> \o (IF np = 0 THEN << two >> ELSE << >>)
          \o [k \in 1..18 |-> PertCall(1, args, PertVars[(k + 1) \div 2], IF k % 2 = 1 THEN 1 ELSE -1)])

(********************************* P12 ************************************)
(* A force on the scale of the flow's dynamic pressure. *)
Force0(cf, args) ==
    IF "aero" \in DOMAIN args
    THEN MulQ(cf, MulQ(MulQ(args.aero.rho, args.aero.V_mag), MulQ(args.aero.V_mag, <<4, 1>>)))
    ELSE MulQ(cf, <<1, 1>>)
LiftFactors == << <<1, 2>>, <<1, 4>>, <<1, 1>>, <<3, 4>>, Q0, <<-1, 4>>, <<3, 2>>, <<1, 8>>, <<20, 1>> >>
MomentFactors == << Q0, <<1, 4>>, <<-1, 4>>, <<1, 10>> >>
Errors == << << >>, << >>, << >>, [error |-> <<1, 1000>>], [error |-> <<1, 100000>>], [error |-> <<1, 10>>] >>
ErrorOf(s, k) == Pick(Errors, s, k)
OrFile(s, k) == IF Chance(s, k, 1, 2) THEN [file |-> "new"] ELSE << >>
TargetAngles == << Q0, <<3, 1>>, <<-4, 1>>, <<1, 2>>, <<-1, 5>>, <<-1, 1>>, <<8, 1>> >>
Elevated(p) == [p EXCEPT !.wings = [i \in 1..Len(p.wings) |->
                    IF i = Len(p.wings)
                    THEN With("control", [span |-> <<Q0, Q1>>, chord |-> << <<2, 5>>, <<2, 5>> >>, mix |-> [elevator |-> Q1], sealed |-> TRUE,
                                          sealed_key |-> "sealed"], p.wings[i])
                    ELSE p.wings[i]]]
ScTargets(id, s, n) ==
    LET o == AnalysisPlane(s, IF n % 5 = 0 THEN <<1>> ELSE <<0>>)
        x == One(s, o)
        p == IF Len(x.plane.wings) > 1 /\ Chance(s, 40, 2, 3) THEN Elevated(x.plane) ELSE x.plane
        np == Len(p.props)
        a == IF Chance(s, 49, 1, 8) THEN << >>
             ELSE [aero |-> LET b == IF Chance(s, 47, 1, 4) THEN RateAero(s, 50) ELSE Aero(s, 50)
                            IN IF Chance(s, 46, 1, 3) THEN With("alpha", Pick(TargetAngles, s, 45), b) ELSE b]
        c == IF Chance(s, 69, 1, 3) THEN << >> ELSE [ctl |-> Controls(s, 70)]
        j == IF np = 0 \/ Chance(s, 79, 1, 3) THEN << >> ELSE [prop |-> IF Chance(s, 78, 1, 3) THEN RateState(s, 80) ELSE PropState(s, 80)]
        args == a @@ c @@ j
        lift == Op("target_lift", 1) @@ args @@ ErrorOf(s, 91) @@ OrFile(s, 92) @@ [L |-> Force0(Pick(LiftFactors, s, 93), args)]
        trim == Op("pitch_trim", 1) @@ args @@ ErrorOf(s, 94) @@ OrFile(s, 95) @@ [L |-> Force0(Pick(LiftFactors, s, 96), args)]
                @@ (IF Chance(s, 97, 1, 2) THEN [M |-> Force0(Pick(MomentFactors, s, 98), args)] ELSE << >>)
        At(of) == [op |-> "solve_at", m |-> 1, of |-> of]
    IN Sc(id, "targets", << p >>,
          << New(1, 1, x.how), lift, At(2), At(2) @@ [dalpha |-> <<1, 100>>], trim, At(5) >>)

(********************************* P13 ************************************)
StallOptions(s) == [AnalysisPlane(s, <<0>>) EXCEPT !.grids = <<2, 3, 4>>]
ScStall(id, s, n) ==
    LET fins == n % 8 = 7
        withprop == n % 12 = 5
        o0 == IF withprop THEN AnalysisPlane(s, <<1>>) ELSE StallOptions(s)
        o == IF fins THEN [o0 EXCEPT !.wings = <<1>>, !.sides = <<"left", "right">>] ELSE o0
        x == One(s, o)
        p == IF fins THEN [x.plane EXCEPT !.wings[1] = With("dihedral", <<90, 1>>, With("side", "right", @))] ELSE x.plane
        rates == Chance(s, 47, 1, 6)
        a == IF Chance(s, 49, 1, 10) THEN << >> ELSE [aero |-> IF rates THEN RateAero(s, 50) ELSE Aero(s, 50)]
        c == IF Chance(s, 69, 1, 3) THEN << >> ELSE [ctl |-> Controls(s, 70)]
        j == IF Len(p.props) = 0 THEN << >> ELSE [prop |-> PropState(s, 80)]
        args == a @@ c @@ j
        onset == Op("stall_onset", 1) @@ args @@ OrFile(s, 92)
        speed == Op("stall_speed", 1) @@ args @@ ErrorOf(s, 91) @@ OrFile(s, 94)
                 @@ [weight |-> Force0(Pick(<< <<1, 2>>, Q1, <<2, 1>>, <<1, 5>>, <<6, 1>> >>, s, 93), args)]
        To(of) == Op("sweep_to", 1) @@ args @@ [of |-> of, to |-> <<90, 1>>]
    IN Sc(id, "stall", << p >>,
          << New(1, 1, x.how), onset, To(2) >> \o (IF fins \/ withprop THEN << >> ELSE << speed, To(4) >>))

(********************************* P20 ************************************)
ScCentre(id, s, n) ==
    LET o == [AnalysisPlane(s, IF n % 8 = 0 THEN <<1>> ELSE <<0>>) EXCEPT !.wings = <<1, 2, 2, 3>>, !.grids = <<2, 2, 3>>]
        x == One(s, o)
        a == IF Chance(s, 49, 1, 8) THEN << >> ELSE [aero |-> IF Chance(s, 48, 1, 4) THEN RateAero(s, 50) ELSE Aero(s, 50)]
        c == IF Chance(s, 69, 1, 3) THEN << >> ELSE [ctl |-> Controls(s, 70)]
        j == IF Len(x.plane.props) = 0 \/ Chance(s, 79, 1, 3) THEN << >> ELSE [prop |-> PropState(s, 80)]
        args == a @@ c @@ j
        t == Pick(Shifts, s, 45)
        moved == CgPlane(t, x.plane)
        swept == [aero |-> IF "aero" \in DOMAIN a THEN a.aero ELSE [V_mag |-> <<10, 1>>, rho |-> <<23769, 10000000>>]] @@ c @@ j
    IN Sc(id, "centre", << x.plane, moved >>,
          << New(1, 1, x.how), Op("ac", 1) @@ args @@ OrFile(s, 92),
             Op("sweep", 1) @@ swept @@ [from |-> <<-10, 1>>, step |-> <<1, 20>>, n |-> 400],
             New(2, 2, x.how), Op("ac", 2) @@ args >>)

(********************************* P14 ************************************)
FileOps == <<"solve", "dist", "derivs", "stall_onset", "stall_speed", "ac", "target_lift", "pitch_trim", "dist", "solve">>
Exts == <<"json", "json", "txt", "dat">>
ScSaved(id, s, n) ==
    LET op0 == FileOps[1 + (n % Len(FileOps))]
        slow == op0 \in {"ac", "stall_speed", "stall_onset"}
        o == MaybeFull(s, [AnalysisOptions EXCEPT !.props = IF slow THEN <<0, 0, 0, 1>> ELSE <<0, 0, 1, 2>>,
                                                  !.wings = IF slow THEN <<1, 1, 0>> ELSE <<0, 1, 2, 2>>])
        p0 == PlaneEntry(s, o)
        p1 == IF Len(p0.wings) + Len(p0.props) = 0 THEN [p0 EXCEPT !.wings = WingList(s, 1, << >>, o)] ELSE p0
        p == IF op0 \in {"ac", "pitch_trim", "target_lift"} /\ Len(p1.wings) = 0 THEN [p1 EXCEPT !.wings = WingList(s, 1, << >>, o)] ELSE p1
        op == IF op0 \in {"ac", "stall_speed"} /\ Len(p.wings) > 0 /\ Len(p.props) > 0 THEN "solve" ELSE op0
        np == Len(p.props)
        Args0(k) == (IF Chance(s, k, 1, 6) THEN << >> ELSE [aero |-> IF Chance(s, k + 1, 1, 3) /\ ~slow THEN RateAero(s, k + 2) ELSE Aero(s, k + 2)])
                    @@ (IF Chance(s, k + 20, 1, 3) THEN << >> ELSE [ctl |-> Controls(s, k + 21)])
                    @@ (IF np = 0 \/ Chance(s, k + 30, 1, 3) THEN << >> ELSE [prop |-> PropState(s, k + 31)])
        Extra(args, k) == CASE op \in {"target_lift"} -> [L |-> Force0(Pick(LiftFactors, s, k), args)]
                            [] op = "pitch_trim" -> [L |-> Force0(Pick(LiftFactors, s, k), args), error |-> <<1, 100000>>]
                            [] op = "stall_speed" -> [weight |-> Force0(Q1, args)]
                            [] OTHER -> << >>
        a1 == Args0(100)
        a2 == Args0(200)
        e == IF op = "dist" THEN Pick(Exts, s, 90) ELSE "json"
        pre == IF Chance(s, 91, 1, 3) THEN [prefill |-> TRUE] ELSE << >>
        call(args, k) == Op(op, 1) @@ args @@ Extra(args, k)
    IN Sc(id, "saved", << p >>,
          << New(1, 1, HowOf(s, o)),
             call(a1, 300) @@ [file |-> "same", ext |-> e] @@ pre,
             call(a1, 300),
             call(a2, 301) @@ [file |-> "same", ext |-> e],
             call(a2, 301) @@ [file |-> "new", ext |-> e] >>)

(********************************* P19 ************************************)
ProfileNames == <<"NACA2410", "NACA0012", "NACA4415", "naca6409", "Clark_Y", "NACA23012", "NACA0512", "NACA2400", "NACA1", "naca5012", "E423">>
\* an airfoil's name is its identity within a wing or propeller
Reshaped(s, k, as) == [j \in 1..Len(as) |-> [as[j] EXCEPT !.name = ProfileNames[1 + ((Mix(s, k) + j * (1 + (Mix(s, k + 1) % 5))) % Len(ProfileNames))]]]
ReshapedPart(s, k, w) == IF "airfoils" \in DOMAIN w /\ Chance(s, k, 3, 4) THEN [w EXCEPT !.airfoils = Reshaped(s, k + 1, @)] ELSE w
ScSurface(id, s, n) ==
    LET o == MaybeFull(s, [Options EXCEPT !.grids = <<2, 3, 2, 4>>, !.wings = <<0, 1, 1, 2>>, !.props = IF n % 2 = 0 THEN <<0>> ELSE <<1, 1, 1, 2>>,
                                          !.nodes = <<11, 12>>, !.dihedrals = @ \o <<<<90, 1>>, <<100, 1>>>>])
        x == One(s, o)
        p0 == IF Len(x.plane.wings) + Len(x.plane.props) = 0 THEN [x.plane EXCEPT !.wings = WingList(s, 1, << >>, o)] ELSE x.plane
        p == [p0 EXCEPT !.wings = [j \in 1..Len(p0.wings) |-> ReshapedPart(s, 300 + 20 * j, p0.wings[j])],
                        !.props = [j \in 1..Len(p0.props) |-> ReshapedPart(s, 400 + 20 * j, p0.props[j])]]
        np == Len(p.props)
        flown == [aero |-> RateAero(s, 50), ctl |-> Controls(s, 70)] @@ (IF np = 0 THEN << >> ELSE [prop |-> PropState(s, 80)])
        before == CASE Mix(s, 93) % 4 = 0 -> << Op("solve", 1) @@ flown >>
                    [] Mix(s, 93) % 4 = 1 -> << Op("dist", 1) @@ flown >>
                    [] OTHER -> << >>
        draw == Op("stl", 1) @@ [faces |-> TRUE]
    IN Sc(id, "surface", << p >>,
          << New(1, 1, x.how) >> \o before
          \o << draw @@ (IF Chance(s, 94, 1, 2) THEN << >> ELSE [file |-> Pick(<<"new", "other">>, s, 95), ext |-> "stl", prefill |-> Chance(s, 96, 1, 3)]) >>
          \o (IF np = 0 /\ Chance(s, 97, 1, 3) THEN << draw >> ELSE << >>))
===============================================================================
