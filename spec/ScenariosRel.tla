----------------------------- MODULE ScenariosRel -----------------------------
(***************************************************************************)
(* Scenarios that relate several calls: views of one solution, transformed *)
(* airplanes, left-out entries, files and code, invalid input.             *)
(***************************************************************************)
EXTENDS ScenariosSession

(********************************* P06 ************************************)
ScViews(id, s) ==
    LET o == [MaybeFull(s, [Options EXCEPT !.grids = <<2, 3, 4, 6>>, !.wings = <<0, 1, 1, 2, 2>>, !.props = <<0, 0, 1, 2>>])
              EXCEPT !.nodes = <<11, 12>>]
        p0 == PlaneEntry(s, o)
        p == IF Len(p0.wings) + Len(p0.props) = 0 THEN [p0 EXCEPT !.wings = WingList(s, 1, << >>, o)] ELSE p0
        np == Len(p.props)
        a == (IF Chance(s, 48, 1, 6) THEN << >> ELSE [aero |-> IF Chance(s, 49, 1, 3) THEN RateAero(s, 50) ELSE Aero(s, 50)])
        c == IF Chance(s, 59, 1, 3) THEN << >> ELSE [ctl |-> Controls(s, 60)]
        j == IF Chance(s, 69, 1, 2) THEN << >> ELSE [prop |-> IF Chance(s, 70, 1, 3) THEN RateState(s, 71) ELSE PropState(s, 72)]
        args == a @@ c @@ j
        base == << New(1, 1, HowOf(s, o)), Op("solve", 1) @@ args @@ [file |-> "new"], Op("dist", 1) @@ args >>
        ll == IF Len(p.wings) > 0 /\ np = 0 /\ "aero" \in DOMAIN args THEN << Op("llsolve", 1) @@ a @@ c >> ELSE << >>
        pp == IF np > 0 THEN << Op("propsolve", 1) @@ a @@ j >> ELSE << >>
    IN Sc(id, "views", << p >>, base \o ll \o pp \o << Op("solve", 1) @@ args >>)

(********************************* P07 ************************************)
NegY(v) == <<v[1], NegQ(v[2]), v[3]>>
AddVec(a, b) == <<AddQ(a[1], b[1]), AddQ(a[2], b[2]), AddQ(a[3], b[3])>>

OtherSide(x) == CASE x = "left" -> "right" [] x = "right" -> "left" [] OTHER -> x
NegSecond(o) == <<o[1], NegQ(o[2])>>
MirrorWing(w) == On(On(w, "side", OtherSide), "pos", NegY)
MirrorProp(p) == On(On(On(p, "pos", NegY), "orient", NegSecond), "rot", OtherTurn)
MirrorPlane(p) == OnAll([p EXCEPT !.wings = Each(@, MirrorWing), !.props = Each(@, MirrorProp)], {"cg", "position"}, NegY)
(* A propeller without a rotation entry turns counter-clockwise. *)
Turning(p) == IF "rot" \in DOMAIN p THEN p ELSE With("rot", "CCW", p)
MirrorAero(a) == OnAll(a, {"beta", "roll_rate", "yaw_rate"}, NegQ)
MirrorCtl(c) == OnAll(c, {"aileron", "rudder"}, NegQ)

Factors == << <<2, 1>>, <<1, 2>>, <<3, 2>>, <<5, 1>>, <<1, 20>>, <<20, 1>>, <<1, 5>> >>
RateFields == {"roll_rate", "pitch_rate", "yaw_rate"}
Inv(k) == <<k[2], k[1]>>
Shifts == << <<<<1, 2>>, <<1, 4>>, <<-1, 1>>>>, <<<<-3, 1>>, <<-2, 1>>, <<1, 2>>>>, <<<<2, 1>>, Q0, Q0>>, <<Q0, Q0, <<3, 4>>>> >>
ShiftPlane(t, p, byposition) ==
    LET At0(r) == IF "pos" \in DOMAIN r THEN r ELSE With("pos", <<Q0, Q0, Q0>>, r)
        MoveP(r) == LET a == At0(r) IN [a EXCEPT !.pos = AddVec(@, t)]
        MoveW(w) == IF byposition \/ ("parent" \in DOMAIN w /\ w.parent # "") THEN w ELSE MoveP(w)
        cg == IF "cg" \in DOMAIN p THEN AddVec(p.cg, t) ELSE t
        q == With("cg", cg, [p EXCEPT !.wings = Each(@, MoveW), !.props = Each(@, MoveP)])
    IN IF byposition THEN With("position", IF "position" \in DOMAIN p THEN AddVec(p.position, t) ELSE t, q) ELSE q
CgPlane(t, p) == With("cg", IF "cg" \in DOMAIN p THEN AddVec(p.cg, t) ELSE t, p)
Reverse(seq) == [i \in 1..Len(seq) |-> seq[Len(seq) + 1 - i]]
(* Any order in which parents come before their children: roots reversed, each followed by its descendants. *)
RECURSIVE Family(_, _)
Family(ws, name) ==
    LET kids == Reverse(SelectSeq(ws, LAMBDA w : w.parent = name))
        RECURSIVE All(_)
        All(i) == IF i > Len(kids) THEN << >> ELSE << kids[i] >> \o Family(ws, kids[i].name) \o All(i + 1)
    IN All(1)
ReorderPlane(p) == [p EXCEPT !.wings = Family(@, ""), !.props = Reverse(@)]

TransformKinds == <<"mirror", "density", "speed", "size", "shift", "cgmove", "reorder", "mirror", "shift", "reorder">>
ScTransform(id, s, n) ==
    LET kind == TransformKinds[1 + (n % Len(TransformKinds))]
        o == [MaybeFull(s, [Options EXCEPT !.grids = <<2, 3, 4>>, !.wings = <<0, 1, 2, 2, 3>>, !.props = <<0, 0, 1, 2>>])
              EXCEPT !.nodes = <<11, 12>>]
        o2 == IF kind = "reorder" THEN [o EXCEPT !.wings = <<1, 2, 3, 4>>, !.props = <<0, 1, 2, 2>>]
              ELSE IF kind = "shift" /\ Chance(s, 43, 1, 2) THEN [o EXCEPT !.full = FALSE] ELSE o
        p00 == PlaneEntry(s, o2)
        p0 == IF Len(p00.wings) + Len(p00.props) = 0 THEN [p00 EXCEPT !.wings = WingList(s, 1, << >>, o2)] ELSE p00
        p == [p0 EXCEPT !.props = Each(@, Turning)]
        a == IF kind = "cgmove" THEN Aero(s, 50) ELSE RateAero(s, 50)
        c == IF Chance(s, 59, 1, 3) THEN << >> ELSE [ctl |-> Controls(s, 60)]
        rated == Chance(s, 70, 1, 3)
        j == IF rated THEN [prop |-> RateState(s, 71)] ELSE [prop |-> PropState(s, 72)]
        k == Pick(Factors, s, 44)
        t == Pick(Shifts, s, 45)
        byp == kind = "shift" /\ ~o2.full /\ Chance(s, 46, 1, 2)
        p2 == CASE kind = "mirror" -> MirrorPlane(p)
                [] kind = "size" -> SizePlane(k, p)
                [] kind = "shift" -> ShiftPlane(t, p, byp)
                [] kind = "cgmove" -> CgPlane(t, p)
                [] kind = "reorder" -> ReorderPlane(p)
                [] OTHER -> p
        a2 == CASE kind = "mirror" -> MirrorAero(a)
                [] kind = "density" -> [a EXCEPT !.rho = MulQ(k, @)]
                [] kind = "speed" -> OnAll(a, {"V_mag"} \cup RateFields, LAMBDA x : MulQ(k, x))
                [] kind = "size" -> OnAll(a, RateFields, LAMBDA x : MulQ(Inv(k), x))
                [] OTHER -> a
        c2 == IF kind = "mirror" /\ "ctl" \in DOMAIN c THEN [ctl |-> MirrorCtl(c.ctl)] ELSE c
        j2 == IF ~rated THEN j
              ELSE CASE kind = "speed" -> [prop |-> [rot_per_sec |-> MulQ(k, j.prop.rot_per_sec)]]
                     [] kind = "size" -> [prop |-> [rot_per_sec |-> MulQ(Inv(k), j.prop.rot_per_sec)]]
                     [] OTHER -> j
        how == HowOf(s, o2)
        how2 == IF byp THEN "code" ELSE how
        one == [aero |-> a] @@ c @@ j
        two == [aero |-> a2] @@ c2 @@ j2
    IN Sc(id, kind, << p, p2 >>,
          << New(1, 1, IF byp THEN "code" ELSE how), Op("dist", 1) @@ one, Op("solve", 1) @@ one,
             New(2, 2, how2), Op("solve", 2) @@ two @@ [k |-> k, t |-> t] >>)

(********************************* P10 ************************************)
DefaultP == [alpha_L0 |-> <<-369, 10000>>, CL_alpha |-> <<62832, 10000>>, CL_max |-> <<14, 10>>, Cm_L0 |-> <<-527, 10000>>,
             Cm_alpha |-> <<-8, 100>>, CD0 |-> <<55, 10000>>, CD0_L |-> <<-45, 10000>>, CD0_L2 |-> <<1, 100>>]
DefaultSection == [name |-> "NACA2412", p |-> DefaultP]
Fill(r, d) == r @@ d
SaidEnd(a) == IF a.end = "unsaid" THEN [a EXCEPT !.end = "both"] ELSE a
Pair(ch) == IF Len(ch) = 1 THEN <<ch[1], ch[1]>> ELSE ch
FillControl(c) == [Fill(c, [sealed |-> TRUE]) EXCEPT !.chord = Pair(@), !.sealed_key = IF @ = "sealed" THEN "is_sealed" ELSE "sealed"]
FillWing(w) ==
    LET a == Fill(w, [pos |-> <<Q0, Q0, Q0>>, side |-> "both", yoffset |-> Q0, semispan |-> <<4, 1>>, sweep |-> Q0, dihedral |-> Q0,
                      mount_angle |-> Q0, washout |-> Q0, root_chord |-> Q1, grid |-> 40, is_main |-> TRUE])
        b == Fill(a, [tip_chord |-> a.root_chord])
        c == [b EXCEPT !.airfoils = << [name |-> "NACA2412", p |-> DefaultP, end |-> "both"] >> \o Each(@, SaidEnd)]
    IN IF "control" \in DOMAIN c THEN [c EXCEPT !.control = FillControl(@)] ELSE c
SameTurn(r) == CASE r = "CCW" -> "1" [] r = "ccw" -> "1.0" [] r = "CW" -> "-1" [] r = "cw" -> "-1.0" [] r = "1" -> "ccw"
                 [] r = "-1" -> "CW" [] r = "1.0" -> "CCW" [] OTHER -> "cw"
FillProp(p) ==
    LET a == Fill(p, [pos |-> <<Q0, Q0, Q0>>, orient |-> <<Q0, Q0>>, nodes |-> 100, diameter |-> Q1, blades |-> 2, rot |-> "CCW",
                      pitch |-> [type |-> "ratio", value |-> <<1, 2>>], chord |-> [type |-> "default"]])
        (* a tenth of the diameter, where that is one number however it is computed: searches *)
        (* that wander off tell numbers apart that differ in the last place *)
        tenth == MulQ(a.diameter, <<1, 10>>)
        b == IF RQ(tenth[1], tenth[2]) = RQ(1, 10) \otimes RQ(a.diameter[1], a.diameter[2])
             THEN Fill(a, [hub |-> tenth]) ELSE a
        c == [b EXCEPT !.rot = SameTurn(@)]
    IN IF Len(c.airfoils) = 0 THEN [c EXCEPT !.airfoils = << DefaultSection >>] ELSE c
FillPlane(p) == Fill([p EXCEPT !.wings = Each(@, FillWing), !.props = Each(@, FillProp)], [cg |-> <<Q0, Q0, Q0>>])
FillAero(a) == Fill(a, [alpha |-> Q0, beta |-> Q0, roll_rate |-> Q0, pitch_rate |-> Q0, yaw_rate |-> Q0])
FillCtl(c) == Fill(c, [aileron |-> Q0, elevator |-> Q0, rudder |-> Q0, flap |-> Q0])
DropGrid(w, s, i) == IF "grid" \in DOMAIN w /\ Chance(s, 90 + i, 1, 3) THEN Without(w, {"grid"}) ELSE w
(* A left-out pitch is the documented pitch-to-diameter ratio of one half. *)
DefaultOps == <<"solve", "dist", "llsolve", "propsolve", "target_lift", "pitch_trim", "stall_onset", "stab", "damp", "ctrl", "derivs">>
ScDefaults(id, s, n) ==
    LET o == [Options EXCEPT !.grids = <<2, 3>>, !.wings = <<0, 1, 1, 2, 2>>, !.props = <<0, 0, 1, 2>>, !.nodes = <<11, 12>>,
                             !.drop = 2 + (n % 2), !.control = 3]
        p0 == PlaneEntry(s, o)
        p1 == IF Len(p0.wings) + Len(p0.props) = 0 THEN [p0 EXCEPT !.wings = WingList(s, 1, << >>, o)] ELSE p0
        large == n % 6 = 0
        p2 == IF large THEN [p1 EXCEPT !.wings = [i \in 1..Len(p1.wings) |-> DropGrid(p1.wings[i], s, i)]] ELSE p1
        p == IF n % 5 = 0 THEN [p2 EXCEPT !.props = Each(@, LAMBDA r : Without(r, {"nodes"}))] ELSE p2
        full == Without(FillPlane(p), {"held"})
        drop(k) == IF Chance(s, k, 1, 2) THEN << >> ELSE [aero |-> IF Chance(s, k + 1, 1, 2) THEN Aero(s, k + 2) ELSE RateAero(s, k + 2)]
        ctls(k) == IF Chance(s, k, 1, 2) THEN << >> ELSE [ctl |-> Controls(s, k + 1)]
        prps(k) == IF Chance(s, k, 2, 3) THEN << >> ELSE [prop |-> PropState(s, k + 1)]
        op1 == Usable(DefaultOps[1 + (n % Len(DefaultOps))], p)
        op2 == Usable(Pick(DefaultOps, s, 80), p)
        Extra(op) == IF op \in {"target_lift", "pitch_trim"} THEN [L |-> Pick(Lifts, s, 81), file |-> "new"]
                     ELSE IF op \in {"stall_onset", "derivs"} THEN FileOf(s, 82) ELSE << >>
        Args(op, k) == CASE op = "llsolve" -> drop(k) @@ ctls(k + 20)
                         [] op = "propsolve" -> drop(k) @@ prps(k + 30)
                         [] OTHER -> drop(k) @@ ctls(k + 20) @@ prps(k + 30)
        Filled(op, args) ==
            LET aero == IF "aero" \in DOMAIN args THEN FillAero(args.aero)
                        ELSE FillAero([V_mag |-> <<10, 1>>, rho |-> IF op = "llsolve" THEN Q1 ELSE <<23769, 10000000>>])
                prop == IF "prop" \in DOMAIN args THEN args.prop ELSE [J |-> <<1, 2>>]
                each == IF Len(p.props) = 2 /\ Chance(s, 83, 1, 2)
                        THEN (p.props[1].name :> prop) @@ (p.props[2].name :> prop) ELSE prop
            IN [aero |-> aero] @@ (IF op = "propsolve" THEN << >> ELSE [ctl |-> FillCtl(IF "ctl" \in DOMAIN args THEN args.ctl ELSE << >>)])
               @@ (IF op = "llsolve" THEN << >> ELSE [prop |-> each])
        a1 == Args(op1, 100)
        a2 == Args(op2, 200)
        geo == IF Len(p.wings) > 0 THEN << Op("positions", 1), Op("grid", 1) >> ELSE << >>
        geo2 == IF Len(p.wings) > 0 THEN << Op("positions", 2), Op("grid", 2) >> ELSE << >>
    IN Sc(id, "defaults", << p, full >>,
          << New(1, 1, "code"), Op(op1, 1) @@ a1 @@ Extra(op1), Op(op2, 1) @@ a2 @@ Extra(op2) >> \o geo
          \o << New(2, 2, "code"), Op(op1, 2) @@ Filled(op1, a1) @@ Extra(op1), Op(op2, 2) @@ Filled(op2, a2) @@ Extra(op2) >> \o geo2)

(********************************* P18 ************************************)
ScFiles(id, s) ==
    LET o == [Options EXCEPT !.full = TRUE, !.grids = <<2, 3, 4>>, !.wings = <<0, 1, 2, 2, 3>>, !.props = <<0, 0, 1, 2>>,
                             !.nodes = <<11, 12>>, !.motor = Chance(s, 40, 1, 2)]
        p0 == PlaneEntry(s, o)
        p1 == IF Len(p0.wings) + Len(p0.props) = 0 THEN [p0 EXCEPT !.wings = WingList(s, 1, << >>, o)] ELSE p0
        Absent(i) == LET w == p1.wings[i] IN IF "control" \notin DOMAIN w /\ Chance(s, 41 + i, 1, 2) THEN With("absent_control", "false", w) ELSE w
        ws == [i \in 1..Len(p1.wings) |-> Absent(i)]
        p == With("omit_empty", Chance(s, 47, 1, 2), [p1 EXCEPT !.wings = ws])
        united == With("units", Pick(<<"English", "SI", "english", "si">>, s, 48), p)
        args == [aero |-> IF Chance(s, 49, 1, 2) THEN Aero(s, 50) ELSE RateAero(s, 50), ctl |-> Controls(s, 60), prop |-> PropState(s, 70)]
        Look(m) == << Op("dist", m) @@ args, Op("solve", m) @@ args >>
                   \o (IF Len(p.wings) > 0 THEN << Op("positions", m), Op("grid", m) >> ELSE << >>)
                   \o << Op("stl", m) >>
    IN Sc(id, "files", << p, united >>,
          << New(1, 1, "code") >> \o Look(1) \o << New(2, 1, "file") >> \o Look(2)
          \o << New(3, 2, "file") @@ (IF Chance(s, 39, 1, 2) THEN [via_plane |-> TRUE] ELSE << >>) >> \o Look(3))

(********************************* P21 ************************************)
(* Descriptions that cannot be built. *)
BadPlane(s, p, n) ==
    LET w == p.wings[1]
        withparent == Len(p.wings) > 1
        bp(f, v) == [p EXCEPT !.props[1] = With(f, v, @)]
    IN CASE n = 0 -> [p EXCEPT !.wings[1].side = Pick(<<"up", "Left", "lefty", "right ", "", "bot">>, s, 320)]
         [] n = 1 -> [p EXCEPT !.wings[2] = With("at", Pick(<<"middle", "Root", "", "left_tip", "ti">>, s, 321), With("parent", p.wings[1].name, With("side", p.wings[1].side, @)))]
         [] n = 2 -> bp("pitch", [type |-> Pick(<<"linear", "Ratio", "", "rat", "fromfile">>, s, 322), value |-> <<1, 2>>])
         [] n = 3 -> bp("chord", [type |-> Pick(<<"triangular", "Linear", "", "ellipse", "ratio">>, s, 323), root |-> <<1, 10>>])
         [] n = 4 -> With("units", Pick(<<"imperial", "Englisch", "S", "metric", "SIunits", "e", "sI">>, s, 324), p)
         [] n = 5 -> bp("airfoils", << [name |-> "NACA0012", p |-> Sections0[1]], [name |-> "NACA2410", p |-> Sections0[2]] >>)
         [] n = 6 -> p
         [] OTHER -> [p EXCEPT !.wings[2] = With("parent", p.wings[1].name, With("side", p.wings[1].side, With("at", "Tip", @)))]
InvalidKind == 8
(* Calls that must be rejected. *)
InvalidCall(s, p, n, wingless) ==
    LET a == [aero |-> Aero(s, 300)]
        Ops0 == IF wingless THEN <<"solve", "dist", "propsolve">> ELSE <<"solve", "dist", "target_lift", "pitch_trim", "stall_onset", "stab", "ctrl", "damp", "derivs", "propsolve">>
        op == Ops0[1 + (Mix(s, 310) % Len(Ops0))]
        L == IF op \in {"target_lift", "pitch_trim"} THEN [L |-> Q1] ELSE << >>
        one == p.props[Len(p.props)].name
    IN CASE n = 0 -> Op(op, 1) @@ [aero |-> [rho |-> Q1, alpha |-> Q1]] @@ L
         [] n = 1 -> Op(op, 1) @@ [aero |-> [V_mag |-> <<10, 1>>, alpha |-> Q1]] @@ L
         [] n = 2 -> Op(op, 1) @@ a @@ [prop |-> Pick(<< [advance |-> <<1, 2>>], [j |-> <<1, 2>>], [rpm |-> <<900, 1>>], [throttle |-> <<1, 2>>] >>, s, 325)] @@ L
         [] n = 3 -> Op(op, 1) @@ a @@ [prop |-> [J |-> Q0]] @@ L
         [] n = 4 -> Op(op, 1) @@ a @@ [prop |-> [electric_throttle |-> <<1, 2>>]] @@ L
         [] n = 5 -> Op(op, 1) @@ a @@ [prop |-> (one :> [power |-> Q1]) @@ [J |-> <<1, 2>>]] @@ L
         [] n = 6 -> IF wingless THEN Op(Pick(<<"derivs", "stall_onset", "stab", "ctrl", "damp", "ac">>, s, 311), 1) @@ a
                     ELSE Op("badpos", 1) @@ [what |-> Pick(<<"middle", "left", "tip">>, s, 312)]
         [] n = 7 -> IF wingless THEN Op("stall_speed", 1) @@ a @@ [weight |-> <<10, 1>>]
                     ELSE IF Chance(s, 314, 1, 3) THEN Op("llsolve", 1) @@ a @@ [stype |-> Pick(<<"nonlinear", "Linear", "lifting", "">>, s, 315)]
                     ELSE Op("llsolve", 1) @@ [aero |-> Pick(<< [rho |-> Q1], [V_mag |-> Q1], [alpha |-> Q1] >>, s, 313)]
         [] OTHER -> Op(op, 1) @@ a @@ [prop |-> (one :> [J |-> Q0]) @@ [rot_per_sec |-> <<30, 1>>]] @@ L
ScInvalid(id, s, n) ==
    LET wingless == n % 5 = 0
        o == [Options EXCEPT !.full = TRUE, !.grids = <<2, 3>>, !.wings = IF wingless THEN <<0>> ELSE <<2, 3>>, !.props = <<1, 2>>,
                             !.nodes = <<11, 12>>, !.motor = Chance(s, 40, 1, 2)]
        p == PlaneEntry(s, o)
        bad == BadPlane(s, p, n % InvalidKind)
        b == n % InvalidKind
        build == IF wingless THEN << >>
                 ELSE CASE b = 6 -> << New(9, 1, "missing") @@ [invalid |-> TRUE] >>
                        [] b = 4 -> << New(9, 2, "file") @@ [invalid |-> TRUE] >>
                        [] b = 5 -> << New(9, 2, "code") @@ [invalid |-> TRUE] >>
                        [] OTHER -> << New(9, 2, HowOf(s, o)) @@ [invalid |-> TRUE] >>
        v1 == Op(Usable(Pick(<<"solve", "dist", "stab", "target_lift">>, s, 50), p), 1) @@ Args3(s, 60, p)
        v2 == Op("dist", 1) @@ Args3(s, 70, p)
        VV(v) == IF v.op = "target_lift" THEN v @@ [L |-> <<50, 1>>, file |-> "new"] ELSE v
        Bad(k) == InvalidCall(Mix(s, k), p, (n \div 3 + k) % 9, wingless) @@ [invalid |-> TRUE]
    IN Sc(id, "invalid", << p, IF wingless THEN p ELSE bad >>,
          << New(1, 1, HowOf(s, o)), VV(v1), v2, Bad(1), v2, VV(v1) >> \o build \o << Bad(2), VV(v1), Bad(3), v2,
             New(2, 1, HowOf(s, o)), Alone(v2, 2), Alone(VV(v1), 2) >>)
===============================================================================
