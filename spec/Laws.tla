--------------------------------- MODULE Laws ---------------------------------
(***************************************************************************)
(* What is true of the specification itself: the properties, evaluated on  *)
(* the answers the specification computes, for the airplanes and states of *)
(* the generated scenarios (SCENARIOS). The code takes no part in this: a  *)
(* failing law means that the oracle the code is held to does not have the *)
(* property it is used for.                                                *)
(***************************************************************************)
EXTENDS SurfaceChecks, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.SCENARIOS)
Property == IOEnv.PROPERTY
VARIABLES sc, i

(* Arguments of a call as reals. *)
RealRec(a) == Force([f \in DOMAIN a |-> QV(a[f])])
IsQ(x) == KindOf(x) \in {"sequence", "real"} /\ Len(x) = 2
PlainRec(a) == IsRec(a) /\ ~Has(a, "local_state") /\ \A f \in DOMAIN a : IsQ(a[f])
AeroIn(call) == IF Has(call, "aero") /\ PlainRec(call.aero) THEN RealRec(call.aero) ELSE DefaultAero
CtlIn(call) == IF Has(call, "ctl") THEN RealRec(call.ctl) ELSE << >>
Calls(S, ops) == SelectSeq(S.calls, LAMBDA c : c.op \in ops)
Near(a, b, sc0) == RClose(a, b, RQ(1, 100000000), sc0)
VNear(a, b, sc0) == \A c \in 1..3 : Near(a[c], b[c], sc0)
Zero(a, sc0) == RAbs(a) \preceq (RQ(1, 100000000) \otimes sc0)

L(name, holds) == <<name, holds>>

(**************************** P01: placement ******************************)
HalfName(D, k, side) == side \o "_" \o D.wings[k].name
FindHalf(hs, name) == hs[CHOOSE k \in 1..Len(hs) : hs[k].name = name]
Root(h) == IF h.side = "left" THEN h.pr ELSE h.pl
Tip(h) == IF h.side = "left" THEN h.pl ELSE h.pr
RECURSIVE InPlane(_, _)
(* The wing and everything it hangs on lies in the symmetry plane. *)
InPlane(D, k) == LET w == D.wings[k]
                 IN /\ GetVec(w, "pos")[2] = R0 /\ GetVec(D, "position")[2] = R0
                    /\ (Get(w, "parent", "") # "" => InPlane(D, WingIndex(D, w.parent)))
PlacementLaws(D) ==
    LET hs == Halves(D)
        sz(h) == RMax(R1, RMax(VMaxAbs(h.pl), VMaxAbs(h.pr)))
        Arc(h) == LET d == VSub(Tip(h), Root(h)) IN Near(RSqrt(RSq(d[2]) \oplus RSq(d[3])), RAbs(h.span), sz(h))
        Image(v) == <<v[1], RNeg(v[2]), v[3]>>
        Mirror(k) == (Get(D.wings[k], "side", "both") = "both" /\ InPlane(D, k)) =>
                     LET a == FindHalf(hs, HalfName(D, k, "left"))  b == FindHalf(hs, HalfName(D, k, "right"))
                     IN VNear(a.pl, Image(b.pr), sz(a)) /\ VNear(a.pr, Image(b.pl), sz(a))
        Hangs(h) == LET w == D.wings[h.wing]  parent == Get(w, "parent", "")
                        off == VAdd(GetVec(w, "pos"), <<R0, Outboard(h.side) \otimes GetQ(w, "yoffset", 0, 1), R0>>)
                    IN IF parent = "" THEN VNear(Root(h), VAdd(off, GetVec(D, "position")), sz(h))
                       ELSE VNear(Root(h), VAdd(off, Tip(FindHalf(hs, h.side \o "_" \o parent))), sz(h))
    IN << L("the span is measured along the dihedral", \A k \in 1..Len(hs) : Arc(hs[k])),
          L("left halves mirror right ones", \A k \in 1..Len(D.wings) : Mirror(k)),
          L("halves start where they hang", \A k \in 1..Len(hs) : Hangs(hs[k])) >>

(**************************** P02, P03: sections **************************)
OfHalf(g, k) == SelectSeq(g, LAMBDA x : x.half = k)
SectionLaws(D, cosine) ==
    LET hs == Halves(D)
        g == Sections(D, cosine)
        One(k) ==
          LET h == hs[k]  x == OfHalf(g, k)  n == Len(x)
              W(j) == x[j].s2 \ominus x[j].s1
              A(j) == x[j].dS  Q(j) == x[j].ic2  DL(j) == x[j].dl
              d == VSub(h.pr, h.pl)
              third == (((h.cl \otimes h.cl) \oplus (h.cl \otimes h.cr)) \oplus (h.cr \otimes h.cr)) \oslash RInt(3)
              flat == RCos(Rad(h.sweep)) \otimes Norm(d)
          IN /\ n = h.n
             /\ Near(SumTo(W, n), R1, R1)
             /\ VNear(VSumTo(DL, n), d, Norm(d))
             /\ Near(SumTo(A, n), flat \otimes (Half \otimes (h.cl \oplus h.cr)), flat)
             /\ (h.wl = R0 /\ h.wr = R0) => Near(SumTo(Q, n), RAbs(Dot(x[1].us, d)) \otimes third, third \otimes Norm(d))
             /\ \A j \in 1..n : x[j].s1 \prec x[j].s /\ x[j].s \prec x[j].s2
             /\ \A j \in 1..n : Near(W(j), W(n + 1 - j), R1)
        Frame(x) == /\ Near(Norm(x.ua), R1, R1) /\ Near(Norm(x.un), R1, R1) /\ Near(Norm(x.us), R1, R1)
                    /\ Zero(Dot(x.ua, x.un), R1) /\ VNear(Cross(x.un, x.us), x.ua, R1)
        Within(a, l, r) == RMin(l, r) \ominus RQ(1, 1000000000) \preceq a /\ a \preceq (RMax(l, r) \oplus RQ(1, 1000000000))
    IN << L("sections tile their half", \A k \in 1..Len(hs) : One(k)),
          L("section axes are right-angled", \A j \in 1..Len(g) : Frame(g[j])),
          L("blends lie between the ends", \A j \in 1..Len(g) : \A f \in {"CL_alpha", "alpha_L0", "CL_max", "Cm_alpha", "Cm_L0"} :
                Within(g[j][f], g[j].L[f], g[j].R[f])),
          L("twist lies between the ends", \A j \in 1..Len(g) : LET h == hs[g[j].half] IN
                Within(g[j].twist, h.mount \ominus h.wl, h.mount \ominus h.wr)) >>

(******************************* P04: controls ****************************)
ControlLaws(D) ==
    LET g == Sections(D, TRUE)
        c1 == [aileron |-> RInt(3), elevator |-> RInt(-2), rudder |-> R1, flap |-> R0]
        c2 == [aileron |-> R1, elevator |-> RInt(5), rudder |-> RInt(-4), flap |-> RInt(7)]
        c12 == Force([f \in DOMAIN c1 |-> c1[f] \oplus c2[f]])
        Adds(x) == Near(Deflection(x, c12), Deflection(x, c1) \oplus Deflection(x, c2), R1)
        Off(x) == ~x.on => Deflection(x, c12) = R0 /\ x.eff = R0 /\ x.cmd = R0
        Sized(x) == x.on => RInt(-1) \prec x.eff /\ x.eff \prec RQ(11, 10) /\ x.cmd \preceq R0
        Twin(x, y) == /\ Near(x.aileron, RNeg(y.aileron), R1) /\ Near(x.rudder, RNeg(y.rudder), R1)
                      /\ Near(x.elevator, y.elevator, R1) /\ Near(x.flap, y.flap, R1)
                      /\ Near(x.eff, y.eff, R1) /\ Near(x.cmd, y.cmd, R1)
        hs == Halves(D)
        Pair(k) == (Get(D.wings[k], "side", "both") = "both") =>
                   LET a == CHOOSE m \in 1..Len(hs) : hs[m].name = HalfName(D, k, "left")
                       b == CHOOSE m \in 1..Len(hs) : hs[m].name = HalfName(D, k, "right")
                       x == OfHalf(g, a)  y == OfHalf(g, b)  n == Len(x)
                   IN \A j \in 1..n : Twin(x[j], y[n + 1 - j])
        Growing == \A k \in 1..19 : FlapEff(RQ(k, 20), TRUE) \prec FlapEff(RQ(k + 1, 20), TRUE)
    IN << L("inputs add up", \A j \in 1..Len(g) : Adds(g[j])),
          L("nothing happens off the surface", \A j \in 1..Len(g) : Off(g[j])),
          L("effectiveness is a fraction, moments nose down", \A j \in 1..Len(g) : Sized(g[j])),
          L("halves of a surface are twins", ~OffEdges(D, g) \/ \A k \in 1..Len(D.wings) : Pair(k)),
          L("longer flaps do more", Growing) >>

(**************************** P05, P22: lifting line **********************)
Solved(D, call) ==
    IF ~HasWings(D) THEN [g |-> << >>] ELSE
    LET g == Sections(D, TRUE)
        flow == Flow(D, g, AeroIn(call))
    IN [g |-> g, flow |-> flow, sol |-> SolveLL(D, g, flow, CtlIn(call))]
Posed(x) == WellPosed(x.g, x.flow, x.sol)
LoadLaws(D, call) ==
    LET x == Solved(D, call)
        g == x.g  flow == x.flow  sol == x.sol  n == Len(x.g)
        (* the balance of every section, with the velocities summed up vortex by vortex *)
        Balance(k) ==
          LET vm == Norm(flow.v[k])
              lhs == R2 \otimes (Norm(Cross(flow.v[k], g[k].dl)) \otimes sol.gamma[k])
              ind == VSub(sol.vi[k], flow.v[k])
              a == RAtan(Dot(flow.v[k], g[k].un) \oslash Dot(flow.v[k], g[k].ua))
              fl == (g[k].eff \otimes LargeDeflection(sol.delta[k])) \otimes sol.delta[k]
              F(af) == af.CL_alpha \otimes (a \oplus (fl \ominus af.alpha_L0))
              cl == Blend(g[k], F) \oplus (g[k].CL_alpha \otimes (Dot(ind, g[k].un) \oslash vm))
          IN Near(lhs, ((vm \otimes vm) \otimes g[k].dS) \otimes cl, (vm \otimes vm) \otimes g[k].dS)
        u == flow.u
        F2(l) == (RSq(l.FX) \oplus RSq(l.FY)) \oplus RSq(l.FZ)
        W2(l) == (RSq(l.FL) \oplus RSq(l.FD)) \oplus RSq(l.FS)
        sc2 == RSq(sol.fscale)
    IN IF n = 0 \/ ~Posed(x) THEN << >>
       ELSE << L("every section is in balance", \A k \in 1..n : Balance(k)),
               L("section forces are across the flow and the vortex", \A k \in 1..n :
                    /\ Zero(Dot(sol.force[k], sol.vi[k]), sol.fscale \otimes Norm(sol.vi[k]))
                    /\ Zero(Dot(sol.force[k], g[k].dl), sol.fscale \otimes Norm(g[k].dl))),
               L("section drag is along the flow", \A k \in 1..n :
                    VMaxAbs(Cross(sol.drag[k], sol.vi[k])) \preceq (RQ(1, 100000000) \otimes (sol.fscale \otimes Norm(sol.vi[k])))),
               L("forces in both frames have one length", RClose(F2(sol.total), W2(sol.total), RQ(1, 10000000), sc2)),
               L("parts add up", \A f \in LoadNames : Near(sol.total[f], sol.inviscid[f] \oplus sol.viscous[f], LoadScale(sol, f))) >>
FlowLaws(D, call) ==
    LET a == AeroIn(call)
        al == Rad(RGet(a, "alpha"))  be == Rad(RGet(a, "beta"))
        dir == FreeDir(RGet(a, "alpha"), RGet(a, "beta"))
        w == WindAxes(dir)
        g == Sections(D, TRUE)
        flow == Flow(D, g, a)
        om == <<RGet(a, "roll_rate"), RGet(a, "pitch_rate"), RGet(a, "yaw_rate")>>
        base == VScale(a.V_mag, dir)
        sz == Norm(base) \oplus (Norm(om) \otimes RInt(100))
    IN << L("the freestream has its angles", Near(Norm(dir), R1, R1)
             /\ Zero((dir[3] \otimes RCos(al)) \ominus (dir[1] \otimes RSin(al)), R1)
             /\ Zero((dir[2] \otimes RCos(be)) \ominus (dir[1] \otimes RSin(be)), R1)),
          L("lift, drag and side force axes are right-angled",
             /\ Zero(Dot(w.l, w.u), R1) /\ Zero(Dot(w.s, w.u), R1) /\ Zero(Dot(w.l, w.s), R1) /\ Zero(w.l[2], R1)
             /\ Near(Norm(w.s), R1, R1)),
          L("rotation turns about the centre of gravity", \A k \in 1..Len(g) :
             LET d == VSub(flow.v[k], base) IN
             /\ Zero(Dot(d, om), sz \otimes (R1 \oplus Norm(om)))
             /\ Zero(Dot(d, VSub(g[k].r, CG(D))), sz \otimes (R1 \oplus Norm(VSub(g[k].r, CG(D))))))  >>

(******************************* P07: symmetries **************************)
SymmetryLaws(S) ==
    LET one == S.calls[3]
        two == S.calls[5]
        x == Solved(S.planes[1], one)
        y == Solved(S.planes[2], two)
        ev == [call |-> two]
        gr == Grows(S.kind, ev)
        t == QVec(two.t)
        sz == [f |-> gr[1] \otimes x.sol.fscale, m |-> gr[2] \otimes (x.sol.mscale \oplus (Norm(t) \otimes x.sol.fscale))]
        Sure(D, z) == Posed(z) /\ OffEdges(D, z.g)
    IN IF Len(x.g) = 0 \/ ~Sure(S.planes[1], x) \/ ~Sure(S.planes[2], y) THEN << >>
       ELSE << L("transformed loads of the specification (" \o S.kind \o ")",
                 LoadsEqual(y.sol.total, Transformed(S.kind, x.sol.total, ev), LoadNames, sz, Tiny)) >>

(*************************** P15, P16, P17, P24: propellers ***************)
(* A root of the vortex condition between no induced angle and one that    *)
(* takes the angle of attack away, by bisection.                           *)
Gap(p, nds, k, J, ei) == LET t == VortexTerms(p, nds, k, J, ei) IN t[1] \ominus t[2]
RECURSIVE Halve(_, _, _, _, _, _, _, _)
Halve(p, nds, k, J, lo, hi, glo, n) ==
    LET mid == Half \otimes (lo \oplus hi)
        gm == Gap(p, nds, k, J, mid)
    IN IF n = 0 \/ gm = R0 THEN mid
       ELSE IF RSign(gm) = RSign(glo) THEN Halve(p, nds, k, J, mid, hi, gm, n - 1)
       ELSE Halve(p, nds, k, J, lo, mid, glo, n - 1)
Settle(p, nds, k, J) ==
    LET ex == nds[k].beta \ominus EinfOf(J, nds[k])
    IN Halve(p, nds, k, J, R0, ex, Gap(p, nds, k, J, R0), 60)
Ordinary(p, nds, J) ==
    /\ Proper([nds |-> nds])
    /\ \A k \in 1..Len(nds) : RQ(1, 50) \prec nds[k].beta /\ nds[k].beta \prec RQ(3, 2) /\ RQ(1, 1000) \prec nds[k].c
    /\ RQ(1, 20) \preceq J
JOf(call) == IF Has(call, "prop") /\ Has(call.prop, "J") THEN QV(call.prop.J) ELSE Half
PropCase(D, j, call) ==
    LET p == D.props[j]
        nds == BladeNodes(p)
        J == JOf(call)
    IN IF ~Ordinary(p, nds, J) THEN [ok |-> FALSE]
       ELSE LET E(k) == Settle(p, nds, k, J)
                ei == Map(Len(nds), E)
                V == RInt(30)
            IN [ok |-> TRUE, p |-> p, nds |-> nds, J |-> J, ei |-> ei, V |-> V, rate |-> V \oslash (Diameter(p) \otimes J)]
BladeLaws(D, call) ==
    LET One(j) ==
          LET x == PropCase(D, j, call)
          IN IF ~x.ok THEN TRUE
             ELSE \A k \in 1..Len(x.nds) : Balanced(x.p, x.nds, k, x.J, x.ei[k]) /\ SignRight(x.nds, k, x.J, x.ei[k])
        Spread(j) == LET p == D.props[j] n == Nodes(p)
                     IN /\ Near(Zeta(p, 1) \otimes Diameter(p), Hub(p), Hub(p))
                        /\ \A k \in 1..(n - 1) : Zeta(p, k) \prec Zeta(p, k + 1)
        (* the angle of attack at which there is no lift is none *)
        Smooth(j) == LET nds == BladeNodes(D.props[j])
                         e == RQ(1, 1000000)
                     IN \A k \in 1..Len(nds) : Proper([nds |-> <<nds[k]>>]) =>
                           RAbs(BladeCL(nds[k], e) \ominus BladeCL(nds[k], RNeg(e))) \preceq RQ(1, 1000)
    IN << L("every blade section has a balanced induced angle", \A j \in 1..Len(D.props) : One(j)),
          L("stations go from the hub outwards", \A j \in 1..Len(D.props) : Spread(j)) >>
Backwards(p) == [p EXCEPT !.rot = IF Rotation(p) = R1 THEN "CW" ELSE "CCW"]
Turned(p) == IF Has(p, "rot") THEN p ELSE p @@ [rot |-> "CCW"]
PropLoadLaws(D, call) ==
    LET a == AeroIn(call)
        u == FreeDir(RGet(a, "alpha"), RGet(a, "beta"))
        One(j) ==
          LET x == PropCase(D, j, call)
          IN IF ~x.ok THEN TRUE
             ELSE LET s == BladeSolution(x.p, x.nds, x.J, x.ei)
                      l == PropLoads(D, x.p, s, R1, x.rate, u)
                      b == PropLoads(D, Backwards(Turned(x.p)), s, R1, x.rate, u)
                      fw == Forward(x.p)
                      arm == VSub(PropPos(x.p), CG(D))
                      own == VSub(l.M, Cross(arm, l.F))
                      back == VSub(b.M, Cross(arm, b.F))
                      along == PropLoads(D, x.p, s, R1, x.rate, VNeg(fw))
                  IN /\ Near(Norm(fw), R1, R1)
                     /\ Near(Dot(l.F, fw), l.T, l.fscale) /\ Near(Dot(own, fw), l.l, l.mscale)
                     /\ VNear(l.F, b.F, l.fscale) /\ VNear(own, VNeg(back), l.mscale)
                     (* no flow across the axis, no off-axis loads *)
                     /\ VNear(along.F, VScale(along.T, fw), RQ(1, 1) \otimes (along.fscale \otimes RInt(1000)))
    IN << L("loads of a propeller and of its reverse", \A j \in 1..Len(D.props) : One(j)) >>
SlipLaws(D, call) ==
    LET One(j) ==
          LET x == PropCase(D, j, call)
          IN IF ~x.ok THEN TRUE
             ELSE LET ind == Induced(x.p, x.nds, x.J, x.rate, x.ei)
                      fw == Forward(x.p)
                      R == Diameter(x.p) \oslash R2
                      side == LET c == Cross(fw, <<R0, R0, R1>>) IN IF Norm(c) \prec RQ(1, 100) THEN <<R0, R1, R0>> ELSE Unit(c)
                      Pt(s, r) == VAdd(PropPos(x.p), VAdd(VScale(RNeg(s), fw), VScale(r, side)))
                      V(s, r) == SlipVelocity(x.p, x.nds, ind, x.V, Pt(s, r))
                      (* across the tube, well away from its edges *)
                      Points == {RQ(1, 10), RQ(1, 3), RQ(1, 2), RQ(3, 4)}
                      tot == RMax(R1, MaxAbs(ind.vi))
                      Clear2(s, r) == SlipClear(x.p, x.nds, ind, x.V, Pt(s, r)) /\ SlipClear(x.p, x.nds, ind, x.V, Pt(s, RNeg(r)))
                  IN
                     /\ V(RNeg(R), R \otimes Half) = VZero                                 \* in front
                     /\ V(R, R \otimes RQ(11, 10)) = VZero                                 \* beside
                     /\ \A r \in {z \in Points : Clear2(R, z \otimes R)} : LET v == V(R, r \otimes R)
                                             o == V(R, RNeg(r) \otimes R)
                                         IN (* no outward flow; the two sides swirl oppositely and stream alike *)
                                            /\ Zero(Dot(v, side), tot)
                                            /\ Near(Dot(v, fw), Dot(o, fw), tot)
                                            /\ VNear(VSub(v, VScale(Dot(v, fw), fw)), VNeg(VSub(o, VScale(Dot(o, fw), fw))), tot)
    IN << L("the slipstream is around its axis and nowhere else", \A j \in 1..Len(D.props) : One(j)) >>
(* At a given throttle a faster motor has less torque; more throttle gives more. *)
MotorLaws(D) ==
    LET M(p, th, r) == MotorTorque(p.motor, th, r, "English")
        Good(p) == /\ \A k \in 1..5 : M(p, RQ(1, 2), RInt(10 * k + 10)) \prec M(p, RQ(1, 2), RInt(10 * k))
                   /\ \A k \in 1..5 : M(p, RQ(k, 10), RInt(10)) \prec M(p, RQ(k + 1, 10), RInt(10))
    IN << L("motors slow down under load", \A j \in 1..Len(D.props) : Has(D.props[j], "motor") => Good(D.props[j])) >>

(***************************** P23: references ****************************)
Backward(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
ReferenceLaws(D) ==
    LET E == [D EXCEPT !.wings = Backward(@)]
        hs == Halves(D)
        given == {"lat_ref", "long_ref"} \cap DOMAIN D
        H(k) == IF hs[k].main
                THEN ((RCos(Rad(hs[k].sweep)) \otimes Norm(VSub(hs[k].pr, hs[k].pl))) \otimes (hs[k].cl \oplus hs[k].cr)) \otimes Half
                ELSE R0
    IN << L("the order of the wings does not matter", Near(RefArea(D), RefArea(E), R1) /\ Near(LatRef(D), LatRef(E), R1)),
          L("the area is that of the main wings", Near(RefArea(D), SumTo(H, Len(hs)), R1)),
          L("a derived length makes up the area", Cardinality(given) < 2 => Near(LatRef(D) \otimes LongRef(D), RefArea(D), R1)) >>

(**************************** P10: left-out entries ***********************)
MeaningLaws(S) ==
    << L("the filled-in airplane means the same", PlaneMeaning(S.planes[1]) = PlaneMeaning(S.planes[2])) >>

(**************************** P11: derivatives ****************************)
(* The lifting line is linear in the inputs when they do not turn the freestream: *)
(* vortex strengths answer to rates and (small) deflections in proportion.        *)
LinearLaws(D, call) ==
    LET base == AeroIn(call)
        c0 == << >>
        G(ctl) == LET g == Sections(D, TRUE) IN SolveLL(D, g, Flow(D, g, base), ctl)
        e1 == G([elevator |-> RQ(1, 4)])  e2 == G([elevator |-> RQ(-1, 4)])  e0 == G(c0)
        n == Len(e0.gamma)
        x == Solved(D, call)
    IN IF Len(x.g) = 0 \/ ~Posed(x) THEN << >>
       ELSE << L("strengths answer to small deflections in proportion", \A k \in 1..n :
                 Near(Half \otimes (e1.gamma[k] \oplus e2.gamma[k]), e0.gamma[k], RMax(R1, MaxAbs(e0.gamma)))) >>

(*************************** P20: aerodynamic centre **********************)
(* A sweep made of loads about a known centre has that centre. *)
CentreLaws(D, call) ==
    LET a == AeroIn(call)
        q == ((Half \otimes a.rho) \otimes (a.V_mag \otimes a.V_mag)) \otimes RefArea(D)
        long == LongRef(D)
        Al(k) == Rad(RInt(-10) \oplus (RInt(k - 1) \otimes RQ(1, 20)))
        (* lift and drag of a thin profile, no moment about (x0, z0) from the centre of gravity *)
        x0 == RQ(-3, 10)  z0 == RQ(1, 5)
        Row(k) == LET al == Al(k)
                      CL == RInt(5) \otimes RSin(al \oplus RQ(1, 25))
                      CD == (RQ(1, 50) \oplus (RQ(-1, 100) \otimes CL)) \oplus ((RQ(1, 20) \otimes CL) \otimes CL)
                      A == (CD \otimes RCos(al)) \ominus (CL \otimes RSin(al))
                      N == (CL \otimes RCos(al)) \oplus (CD \otimes RSin(al))
                  IN << RNeg(A) \otimes q, RNeg(N) \otimes q,
                        (((x0 \otimes N) \ominus (z0 \otimes A)) \otimes q) >>
        rows == Map(401, Row)
        cen == Centre(D, a, rows)
        cg == CG(D)
    IN << L("a sweep about a known centre has that centre",
            Near(cen.x, x0 \oplus cg[1], RInt(100)) /\ Near(cen.z, cg[3] \oplus z0, RInt(100))) >>

(******************************* P19: surface *****************************)
ShellLaws(D) ==
    LET f == Surface(D)
        Count == ExpectedCount(D)
        (* a half's outline closes on itself, and consecutive triangles share an edge *)
        Shares(a, b) == Cardinality({x \in 1..3 : \E y \in 1..3 : a[x] = b[y]}) >= 2
    IN << L("the surface has its triangles", Len(f) = Count),
          L("neighbouring triangles share an edge", \A k \in 1..(Len(f) \div 2) : Shares(f[2 * k - 1], f[2 * k])),
          L("profiles close up to their trailing edge", \A nm \in {"NACA0012", "NACA2412", "Clark_Y", "NACA4415"} :
               LET q == Profile(nm) IN RClose(q[1][1], q[Len(q)][1], RQ(1, 1000), R1) /\ RClose(q[1][1], RQ(3, 4), RQ(1, 1000), R1)) >>

(************************** P25: construction *****************************)
LatestOf(seq, Q(_), from) == LET js == {j \in from..Len(seq) : Q(seq[j])} IN IF js = {} THEN 0 ELSE CHOOSE j \in js : \A k \in js : k <= j
(* Part by part, what the last call about it says. *)
AssemblyLaws(S) ==
    LET m == S.calls[1].m
        st == SelectSeq(S.calls, LAMBDA c : c.op \in {"airplane", "step"} /\ c.m = m)
        D == Assembled(st, Len(st))
        Is(c, what) == c.op = "step" /\ c.do = what
        Born(nm) == LET Q(c) == Is(c, "wing") /\ c.w.name = nm IN LatestOf(st, Q, 1)
        Made(nm) == LET Q(c) == Is(c, "prop") /\ c.p.name = nm IN LatestOf(st, Q, 1)
        EndSaid(w, end) ==
            LET Q(c) == Is(c, "airfoil") /\ c.name = w.name /\ c.a.end \in {end, "both", "unsaid"}
                j == LatestOf(st, Q, Born(w.name))
            IN EndAirfoil(w, end) = IF j = 0 THEN DefaultAirfoil ELSE AirfoilOf(st[j].a)
        SurfaceSaid(w) ==
            LET Q(c) == Is(c, "control") /\ c.name = w.name
                j == LatestOf(st, Q, Born(w.name))
            IN IF j = 0 THEN ~Has(w, "control") ELSE w.control = st[j].c
        ParentSaid(w) ==
            LET b == Born(w.name)
                Q(c) == Is(c, "connect") /\ c.name = w.name
                j == LatestOf(st, Q, b)
            IN Get(w, "parent", "") = IF j = 0 THEN Get(st[b].w, "parent", "") ELSE st[j].parent
        Apart(r, fs) == [f \in (DOMAIN r) \ fs |-> r[f]]
        BladesSaid(r) ==
            LET b == Made(r.name)
                OfIt(c) == Is(c, "blade") /\ c.name = r.name
                said == {st[j].a.name : j \in {j \in b..Len(st) : OfIt(st[j])}}
                as == Get(r, "airfoils", << >>)
            IN /\ Len(as) = Cardinality(said) /\ {as[k].name : k \in 1..Len(as)} = said
               /\ \A k \in 1..Len(as) : LET Q(c) == OfIt(c) /\ c.a.name = as[k].name IN as[k] = st[LatestOf(st, Q, b)].a
        CgSaid(c) ==
            LET Q(x) == Is(x, "cg") /\ Coordinates[c] \in DOMAIN x.part
                j == LatestOf(st, Q, 1)
            IN CG(D)[c] = IF j = 0 THEN R0 ELSE QV(st[j].part[Coordinates[c]])
        RefSaid(f) ==
            LET Q(x) == Is(x, "refs")
                j == LatestOf(st, Q, 1)
            IN IF j = 0 \/ f \notin DOMAIN st[j].part THEN ~Has(D, f) ELSE D[f] = st[j].part[f]
        ws == D.wings
        ps == D.props
    IN << L("wings are those added", {ws[k].name : k \in 1..Len(ws)} = {st[j].w.name : j \in {j \in 1..Len(st) : Is(st[j], "wing")}}
                                     /\ Len(ws) = Cardinality({ws[k].name : k \in 1..Len(ws)})),
          L("wings have the shape last given", \A k \in 1..Len(ws) : Apart(ws[k], {"airfoils", "control", "parent"})
                                                                     = Apart(st[Born(ws[k].name)].w, {"parent"})),
          L("ends have the airfoils last given", \A k \in 1..Len(ws) : EndSaid(ws[k], "root") /\ EndSaid(ws[k], "tip")),
          L("wings have the control surface last given", \A k \in 1..Len(ws) : SurfaceSaid(ws[k])),
          L("wings hang on what they were last connected to", \A k \in 1..Len(ws) : ParentSaid(ws[k])),
          L("propellers are those added", {ps[k].name : k \in 1..Len(ps)} = {st[j].p.name : j \in {j \in 1..Len(st) : Is(st[j], "prop")}}
                                     /\ Len(ps) = Cardinality({ps[k].name : k \in 1..Len(ps)})),
          L("propellers have the shape last given", \A k \in 1..Len(ps) : Apart(ps[k], {"airfoils"}) = st[Made(ps[k].name)].p),
          L("blades have the airfoils last given", \A k \in 1..Len(ps) : BladesSaid(ps[k])),
          L("the centre of gravity is where it was last put", \A c \in 1..3 : CgSaid(c)),
          L("reference lengths last given", RefSaid("lat_ref") /\ RefSaid("long_ref")) >>

LawsOf(S) ==
    LET P == Property
        EachPlane(F(_)) == LET RECURSIVE To(_)
                               To(k) == IF k = 0 THEN << >> ELSE To(k - 1) \o F(S.planes[k])
                           IN To(Len(S.planes))
        EachCall(ops, F(_, _)) ==
            LET cs == Calls(S, ops)
                RECURSIVE To(_)
                To(k) == IF k = 0 THEN << >>
                         ELSE To(k - 1) \o (IF Has(cs[k], "aero") /\ ~PlainRec(cs[k].aero) THEN << >> ELSE F(S.planes[1], cs[k]))
            IN To(IF Len(cs) > 2 THEN 2 ELSE Len(cs))
        Cos(D) == SectionLaws(D, TRUE)
        Lin(D) == SectionLaws(D, FALSE)
    IN CASE P = "P01" -> EachPlane(PlacementLaws)
         [] P = "P02" -> EachPlane(Cos) \o EachPlane(Lin)
         [] P = "P03" -> EachPlane(Cos)
         [] P = "P04" -> EachPlane(ControlLaws)
         [] P = "P05" -> EachCall({"solve", "llsolve"}, LoadLaws)
         [] P = "P06" -> EachCall({"solve", "dist"}, LoadLaws)
         [] P = "P07" -> SymmetryLaws(S)
         [] P = "P10" -> MeaningLaws(S)
         [] P = "P11" -> EachCall({"derivs", "stab", "ctrl", "damp"}, LinearLaws)
         [] P = "P15" -> EachCall({"dist"}, BladeLaws)
         [] P = "P16" -> EachPlane(MotorLaws)
         [] P = "P17" -> EachCall({"propsolve", "solve"}, SlipLaws)
         [] P = "P19" -> EachPlane(ShellLaws)
         [] P = "P20" -> EachCall({"ac"}, CentreLaws)
         [] P = "P22" -> EachCall({"solve", "llsolve"}, FlowLaws) \o EachCall({"solve", "llsolve"}, LoadLaws)
         [] P = "P25" -> IF Has(S.calls[1], "base") THEN << >> ELSE AssemblyLaws(S)
         [] P = "P23" -> EachPlane(ReferenceLaws)
         [] P = "P24" -> EachCall({"solve", "propsolve"}, PropLoadLaws)
         [] OTHER -> << >>

Init == sc \in 1..Len(Scenarios) /\ i = 0
Next == /\ i = 0
        /\ i' = 1
        /\ sc' = sc
        /\ LET ls == LawsOf(Scenarios[sc])
           IN /\ PrintT("LAWS|" \o ToString(Len(ls)))
              /\ Assert(\A k \in 1..Len(ls) : ls[k][2],
                        <<"law broken", Scenarios[sc].id, {ls[k][1] : k \in {j \in 1..Len(ls) : ~ls[j][2]}}>>)
=============================================================================
