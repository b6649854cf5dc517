----------------------------- MODULE PropChecks -----------------------------
(* What recorded answers about propellers must look like.                  *)
EXTENDS Slipstream, Checks

SameText(x, y) == ToString(x) = ToString(y)
SameField(a, b, f) == SameText(Get(a, f, "none"), Get(b, f, "none"))
(* The same solution, seen through distributions: the event that shows it. *)
MateOf(S, i) ==
    LET e == S.events[i]
        Js == {j \in 1..Len(S.events) :
                 /\ S.events[j].op = "dist" /\ S.events[j].out = "ok" /\ S.events[j].call.m = e.call.m
                 /\ SameField(S.events[j].args, e.args, "aero") /\ SameField(S.events[j].args, e.args, "prop")
                 /\ \A k \in 1..Len(S.events) : (j < k /\ k < i) \/ (i < k /\ k < j) =>
                        ~(S.events[k].op = "new" /\ S.events[k].call.m = e.call.m) }
    IN IF Js = {} THEN 0 ELSE CHOOSE j \in Js : TRUE

AeroOf(ev) == IF HasArg(ev, "aero") THEN ev.args.aero ELSE DefaultAero
PropNames(D) == [j \in 1..Len(D.props) |-> D.props[j].name]
(* The operating point asked of propeller p. *)
PropAsked(p, ev) ==
    IF ~HasArg(ev, "prop") THEN [J |-> Half]
    ELSE IF Has(ev.args.prop, p.name) THEN ev.args.prop[p.name] ELSE ev.args.prop
RECURSIVE Offset(_, _)
Offset(D, j) == IF j = 1 THEN 0 ELSE Offset(D, j - 1) + Nodes(D.props[j - 1])
AllNodes(D) == Offset(D, Len(D.props)) + Nodes(D.props[Len(D.props)])

PropKeys == <<"radial_position", "chord", "pitch", "advance_angle", "induced_angle", "alpha", "section_CL", "section_CD",
              "Vi", "Vi_x", "Vi_t">>
WellShaped(D, pd) ==
    /\ HasAll(pd, {"name"} \cup {PropKeys[k] : k \in 1..Len(PropKeys)})
    /\ \A k \in 1..Len(PropKeys) : IsSeq(pd[PropKeys[k]]) /\ Len(pd[PropKeys[k]]) = AllNodes(D)
    /\ \A k \in 1..Len(PropKeys), n \in 1..AllNodes(D) : RIsReal(pd[PropKeys[k]][n])
    /\ IsSeq(pd.name) /\ Len(pd.name) = AllNodes(D)

(* What the view of a solution says about propeller j: its advance ratio and induced angles. *)
Shown(D, j, ev, pd) ==
    LET p == D.props[j]
        nds == BladeNodes(p)
        n == Len(nds)
        off == Offset(D, j)
        asked == PropAsked(p, ev)
        V == AeroOf(ev).V_mag
        zero == V = R0
        J == IF zero THEN R0
             ELSE IF Has(asked, "J") THEN asked.J
             ELSE IF Has(asked, "rot_per_sec") THEN V \oslash (asked.rot_per_sec \otimes Diameter(p))
             ELSE (Pi \otimes nds[n].z) \otimes RTan(Rad(pd.advance_angle[off + n]))
        rate == IF zero \/ (Has(asked, "J") /\ asked.J = R0) THEN asked.rot_per_sec ELSE V \oslash (Diameter(p) \otimes J)
        E(i) == Rad(pd.induced_angle[off + i])
    IN [p |-> p, nds |-> nds, off |-> off, J |-> J, rate |-> rate, ei |-> Map(n, E), asked |-> asked, V |-> V]
SolutionOf(x) == BladeSolution(x.p, x.nds, x.J, x.ei)

(* Every node satisfies the vortex condition. (A blade whose tip is not pitched forward has no tip factor.) *)
VortexMet(x) ==
    LET n == Len(x.nds)
        Off == {i \in 1..n : ~(Balanced(x.p, x.nds, i, x.J, x.ei[i]) /\ SignRight(x.nds, i, x.J, x.ei[i]))}
    IN Off = {} \/ RSin(x.nds[n].beta) \preceq R0
Proper(x) == \A i \in 1..Len(x.nds) : RFin(x.nds[i].beta) /\ RFin(x.nds[i].a2) /\ RFin(x.nds[i].b2) /\ RFin(x.nds[i].a2n)

(***************************** P15 (dist) *********************************)
BladeClauses(D, ev) ==
    LET pd == ev.res.prop
    IN IF ~WellShaped(D, pd) THEN << C("all nodes of all propellers are listed", FALSE) >>
       ELSE LET PerProp(j) ==
                  LET x == Shown(D, j, ev, pd)
                      n == Len(x.nds)
                      sol == SolutionOf(x)
                      Part(f) == [i \in 1..n |-> pd[f][x.off + i]]
                      Nd(f) == LET F(i) == x.nds[i][f] IN Map(n, F)
                      Adv(i) == Deg(EinfOf(x.J, x.nds[i]))
                      Pit(i) == Deg(x.nds[i].beta)
                      Alp(i) == Deg(sol.alpha[i])
                      Close(f, want, sc) == \A i \in 1..n : RealIs(pd[f][x.off + i], want[i], Tiny, sc)
                  IN << C("all nodes of all propellers are listed", \A i \in 1..n : pd.name[x.off + i] = x.p.name),
                        C("radial positions", SeqClose(Part("radial_position"), Nd("r"), Tiny)),
                        C("blade chords", SeqClose(Part("chord"), Nd("c"), Tiny)),
                        C("pitch angles", Close("pitch", Map(n, Pit), R1)),
                        C("advance angles", Close("advance_angle", Map(n, Adv), R1)),
                        C("vortex condition", VortexMet(x)),
                        C("angles of attack", Close("alpha", Map(n, Alp), R1)),
                        C("section lift", Close("section_CL", sol.cl, R1)),
                        C("section drag", Close("section_CD", sol.cd, R1)) >>
                RECURSIVE Upto(_)
                Upto(j) == IF j = 0 THEN << >> ELSE Upto(j - 1) \o PerProp(j)
            IN Upto(Len(D.props))
InducedClauses(D, ev) ==
    LET pd == ev.res.prop
    IN IF ~WellShaped(D, pd) THEN << C("all nodes of all propellers are listed", FALSE) >>
       ELSE LET PerProp(j) ==
                  LET x == Shown(D, j, ev, pd)
                      n == Len(x.nds)
                      ind == Induced(x.p, x.nds, x.J, x.rate, x.ei)
                      sc == RMax(R1, MaxAbs(ind.vi))
                      Close(f, want) == \A i \in 1..n : RealIs(pd[f][x.off + i], want[i], Tiny, sc)
                  IN << C("induced velocity", Close("Vi", ind.vi)), C("axial induced velocity", Close("Vi_x", ind.vx)),
                        C("tangential induced velocity", Close("Vi_t", ind.vt)) >>
                RECURSIVE Upto(_)
                Upto(j) == IF j = 0 THEN << >> ELSE Upto(j - 1) \o PerProp(j)
            IN Upto(Len(D.props))

(************************ P15, P24 (loads) ********************************)
AeroDir(ev) == LET a == AeroOf(ev) IN FreeDir(RGet(a, "alpha"), RGet(a, "beta"))
(* Loads of all propellers, from the shown solution. *)
AllPropLoads(D, ev, pd) ==
    LET n == Len(D.props)
        u == AeroDir(ev)
        One(j) == LET x == Shown(D, j, ev, pd)
                  IN PropLoads(D, x.p, SolutionOf(x), AeroOf(ev).rho, x.rate, u)
        each == Map(n, One)
        F(j) == each[j].F  M(j) == each[j].M  T(j) == each[j].T  L(j) == each[j].l
        FS(j) == each[j].fscale  MS(j) == each[j].mscale
    IN [loads |-> Load(VSumTo(F, n), VSumTo(M, n), u) @@ [Thrust |-> SumTo(T, n), Torque |-> SumTo(L, n)],
        fscale |-> SumTo(FS, n), mscale |-> SumTo(MS, n)]
PropLoadNames == LoadNames \cup {"Thrust", "Torque"}
PropLoadsAre(got, want, names) ==
    /\ HasAll(got, names)
    /\ \A k \in names : RealIs(got[k], want.loads[k], RQ(1, 100000000),
                               IF k \in MomentNames \cup {"Torque"} THEN want.mscale ELSE want.fscale)
(* What the file of a solve, or the propellers' solver, says about the propellers. *)
PropPart(ev) == IF ev.op = "propsolve" THEN ev.res.total ELSE ev.file.json.prop_results.total
PropLoadClauses(S, i, D, ev, names) ==
    LET m == MateOf(S, i)
    IN IF m = 0 THEN << Skip("propeller loads") >>
       ELSE LET pd == S.events[m].res.prop
            IN IF ~WellShaped(D, pd) THEN << C("all nodes of all propellers are listed", FALSE) >>
               ELSE LET want == AllPropLoads(D, ev, pd)
                    IN IF ev.op = "solve" /\ ~HasWings(D)
                       THEN << C("loads of the airplane", PropLoadsAre(ev.res, want, names \ {"Thrust", "Torque"})),
                               CIf(Has(ev, "file"), "loads of the propellers", Has(ev, "file") /\ PropLoadsAre(PropPart(ev), want, names)) >>
                       ELSE IF ev.op = "propsolve" \/ Has(ev, "file")
                       THEN << C("loads of the propellers", PropLoadsAre(PropPart(ev), want, names)) >>
                       ELSE << >>

(***************************** P16 ****************************************)
OperatingClauses(D, ev) ==
    LET pd == ev.res.prop
        aero == AeroOf(ev)
    IN IF ~WellShaped(D, pd) THEN << C("all nodes of all propellers are listed", FALSE) >>
       ELSE LET PerProp(j) ==
                  LET x == Shown(D, j, ev, pd)
                      n == Len(x.nds)
                      d == Diameter(x.p)
                      sol == SolutionOf(x)
                      d5 == RSq(RSq(d)) \otimes d
                      torque == ((aero.rho \otimes RSq(x.rate)) \otimes d5) \otimes sol.Cl
                      power == ((R2 \otimes Pi) \otimes x.rate) \otimes torque
                      Adv(i) == Deg(EinfOf(x.J, x.nds[i]))
                      consistent == \A i \in 1..n : RealIs(pd.advance_angle[x.off + i], Adv(i), Tiny, R1)
                      (* velocities show the rotation rate *)
                      rated == \A i \in 1..n :
                          RealIs(pd.Vi[x.off + i], Induced(x.p, x.nds, x.J, x.rate, x.ei).vi[i], Tiny, RMax(R1, aero.V_mag))
                      a == x.asked
                  IN << C("advance angles belong to one advance ratio", consistent), C("rotation rate", rated) >>
                     \o (IF Has(a, "J") \/ Has(a, "rot_per_sec") THEN << >>
                         ELSE IF Has(a, "brake_power")
                         THEN << C("absorbs the given power", RClose(a.brake_power, power, RQ(1, 1000000), RAbs(a.brake_power))) >>
                         ELSE LET mt == MotorTorque(x.p.motor, a.electric_throttle, x.rate,
                                                    IF D.units \in {"English", "english"} THEN "English" ELSE "SI")
                                  stall == MotorTorque(x.p.motor, a.electric_throttle, R0,
                                                    IF D.units \in {"English", "english"} THEN "English" ELSE "SI")
                              IN << C("motor and propeller torque balance", RClose(mt, torque, RQ(1, 1000000), RAbs(stall))) >>)
                RECURSIVE Upto(_)
                Upto(j) == IF j = 0 THEN << >> ELSE Upto(j - 1) \o PerProp(j)
            IN Upto(Len(D.props))

(* An advance ratio and the rotation rate it implies: events 2 and 3. *)
SameRateClauses(S, i) ==
    LET ev == S.events[i]
        one == S.events[2]
        a == PropPart(one)
        b == PropPart(ev)
        F(l) == RMax(VMaxAbs(<<l.FX, l.FY, l.FZ>>), RAbs(l.Thrust))
        M(l) == RMax(VMaxAbs(<<l.MX, l.MY, l.MZ>>), RAbs(l.Torque))
    IN IF S.kind # "same_rate" \/ i # 3 \/ ev.out # "ok" \/ one.out # "ok" THEN << >>
       ELSE << C("the rotation rate of an advance ratio gives the same loads",
                 /\ HasAll(a, PropLoadNames) /\ HasAll(b, PropLoadNames)
                 /\ \A k \in PropLoadNames : RealIs(b[k], a[k], RQ(1, 10000000), RMax(Floor12, IF k \in MomentNames \cup {"Torque"} THEN M(a) ELSE F(a)))) >>

(* P24: a propeller turning the other way (events 3 and 4 against 7 and 8). *)
ReversedClauses(S, i, D, ev) ==
    LET one == S.events[i - 4]
        a == PropPart(one)
        b == PropPart(ev)
        arm == VSub(PropPos(D.props[1]), CG(D))
        fs == RMax(Floor12, RMax(VMaxAbs(<<a.FX, a.FY, a.FZ>>), RAbs(a.Thrust)))
        ms == RMax(RAbs(a.Torque), VMaxAbs(<<a.MX, a.MY, a.MZ>>)) \oplus (Norm(arm) \otimes fs)
        tol == RQ(1, 100000000)
        armF == Cross(arm, <<a.FX, a.FY, a.FZ>>)
        Mn == <<a.MX, a.MY, a.MZ>>
        Back(c) == (R2 \otimes armF[c]) \ominus Mn[c]
    IN IF S.kind # "prop_loads" \/ i < 7 \/ ev.op = "dist" \/ one.out # "ok" \/ ~(Has(ev, "file") \/ ev.op = "propsolve") THEN << >>
       ELSE << C("a reversed propeller's forces stay", /\ HasAll(a, PropLoadNames) /\ HasAll(b, PropLoadNames)
                   /\ \A k \in {"FX", "FY", "FZ", "FL", "FD", "FS", "Thrust"} : RealIs(b[k], a[k], tol, fs)),
               C("its torque turns around", RealIs(b.Torque, RNeg(a.Torque), tol, ms)) >>
            \o (IF Len(D.props) # 1 THEN << >>
                ELSE << C("its own moments turn around", RealIs(b.MX, Back(1), tol, ms) /\ RealIs(b.MY, Back(2), tol, ms)
                                                         /\ RealIs(b.MZ, Back(3), tol, ms)) >>)

(***************************** P17 ****************************************)
PointsOf(D, ev) ==
    IF HasWings(D) /\ ~Has(ev.call, "nowings")
    THEN LET g == Sections(D, TRUE) F(i) == g[i].r IN Map(Len(g), F)
    ELSE LET F(i) == QVec(ev.call.points[i]) IN Map(Len(ev.call.points), F)
(* The velocity field of all propellers at the points, and whether the points are clear of the edges. *)
Field(D, ev, pd, pts) ==
    LET np == Len(D.props)
        aero == AeroOf(ev)
        base == VScale(aero.V_mag, AeroDir(ev))
        X(j) == LET x == Shown(D, j, ev, pd)
                IN x @@ [ind |-> Induced(x.p, x.nds, x.J, x.rate, x.ei)]
        xs == Map(np, X)
        At(i) == LET T(j) == SlipVelocity(xs[j].p, xs[j].nds, xs[j].ind, xs[j].V, pts[i])
                 IN VAdd(base, VSumTo(T, np))
    IN [v |-> Map(Len(pts), At),
        clear |-> [i \in 1..Len(pts) |-> \A j \in 1..np : SlipClear(xs[j].p, xs[j].nds, xs[j].ind, xs[j].V, pts[i])]]
SlipstreamClauses(S, i, D, ev) ==
    LET m == MateOf(S, i)
    IN IF m = 0 THEN << Skip("slipstream") >>
       ELSE LET pd == S.events[m].res.prop
                pts == PointsOf(D, ev)
                n == Len(pts)
            IN IF ~WellShaped(D, pd) THEN << C("all nodes of all propellers are listed", FALSE) >>
               ELSE LET f == Field(D, ev, pd, pts)
                        sc == RMax(AeroOf(ev).V_mag, R1)
                        Row(k) == IF ~f.clear[k] THEN Skip("velocity at a point")
                                  ELSE C("velocity at a point",
                                         /\ Len(ev.res.field[k]) = 4
                                         /\ RealIs(ev.res.field[k][1], AeroOf(ev).rho, Tiny, R0)
                                         /\ VecClose(<<ev.res.field[k][2], ev.res.field[k][3], ev.res.field[k][4]>>, f.v[k], RQ(1, 100000000), sc))
                    IN IF ~IsSeq(ev.res.field) \/ Len(ev.res.field) # n THEN << C("velocity at every point", FALSE) >>
                       ELSE [k \in 1..n |-> Row(k)]
(* The wings' loads in the propellers' slipstream. *)
SlipFlow(D, g, ev, pd) ==
    LET F(i) == g[i].r
        f == Field(D, ev, pd, Map(Len(g), F))
        a == AeroOf(ev)
        rows == [i \in 1..Len(g) |-> <<a.rho, f.v[i][1], f.v[i][2], f.v[i][3]>>]
    IN [flow |-> Flow(D, g, [local_state |-> rows] @@ a), clear |-> \A i \in 1..Len(g) : f.clear[i]]
ImmersedClauses(S, i, D, ev) ==
    LET m == MateOf(S, i)
    IN IF m = 0 THEN << Skip("loads in the slipstream") >>
       ELSE LET pd == S.events[m].res.prop
            IN IF ~WellShaped(D, pd) THEN << C("all nodes of all propellers are listed", FALSE) >>
               ELSE LET g == Sections(D, TRUE)
                        sf == SlipFlow(D, g, ev, pd)
                        sol == SolveLL(D, g, sf.flow, Args(ev, "ctl"))
                        want == AllPropLoads(D, ev, pd)
                        tol == RQ(1, 10000000)
                        Tot(k) == sol.total[k] \oplus want.loads[k]
                        Scale(k) == IF k \in MomentNames THEN sol.mscale \oplus want.mscale ELSE sol.fscale \oplus want.fscale
                    IN IF ~(sf.clear /\ OffEdges(D, g) /\ WellPosed(g, sf.flow, sol)) THEN << Skip("loads in the slipstream") >>
                       ELSE IF ev.op = "solve"
                       THEN << C("loads in the slipstream", /\ HasAll(ev.res, LoadNames)
                                    /\ \A k \in LoadNames : RealIs(ev.res[k], Tot(k), tol, Scale(k))) >>
                       ELSE << C("section angles in the slipstream", SeqClose(ev.res.wing.alpha, sol.alpha, tol)),
                               C("section forces in the slipstream",
                                  /\ IsSeq(ev.res.wing.forces_xyz) /\ Len(ev.res.wing.forces_xyz) = Len(g)
                                  /\ \A k \in 1..Len(g) : VecClose(ev.res.wing.forces_xyz[k], sol.force[k], tol, sol.fscale)) >>
=============================================================================
