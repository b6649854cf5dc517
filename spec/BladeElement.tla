---------------------------- MODULE BladeElement ----------------------------
(***************************************************************************)
(* Propellers: blade stations, section data, stalled-airfoil model, the    *)
(* vortex condition for the induced angle, and the loads they imply.       *)
(***************************************************************************)
EXTENDS LiftingLine

(****************************** description *******************************)
Diameter(p) == GetQ(p, "diameter", 1, 1)
Hub(p) == IF Has(p, "hub") THEN QV(p.hub) ELSE QV(LET d == Get(p, "diameter", <<1, 1>>) IN <<d[1], 10 * d[2]>>)
Nodes(p) == Get(p, "nodes", 100)
Blades(p) == Get(p, "blades", 2)
Rotation(p) == IF Get(p, "rot", "CCW") \in {"CW", "cw", "-1", "-1.0", "0"} THEN RInt(-1) ELSE R1
PropPos(p) == GetVec(p, "pos")
Forward(p) ==
    LET o == IF Has(p, "orient") THEN <<QV(p.orient[1]), QV(p.orient[2])>> ELSE <<R0, R0>>
        st == RSin(Rad(o[1]))  ct == RCos(Rad(o[1]))
        sg == RSin(Rad(o[2]))  cg == RCos(Rad(o[2]))
    IN <<ct \otimes cg, ct \otimes sg, RNeg(st)>>

(* Radial stations from the hub to 99.9 percent of the radius. *)
Zeta(p, i) ==
    LET z0 == Hub(p) \oslash Diameter(p)
        z1 == RQ(999, 1000)
        n == Nodes(p)
    IN IF i = n THEN z1 ELSE z0 \oplus (RInt(i - 1) \otimes ((z1 \ominus z0) \oslash RInt(n - 1)))

(* The cubic through four tabulated points. *)
Cubic(tab, x) ==
    LET X(k) == QV(tab[k][1])
        Basis(k) == LET F(j) == (x \ominus X(j)) \oslash (X(k) \ominus X(j))
                        RECURSIVE ProdTo(_)
                        ProdTo(j) == IF j = 0 THEN R1
                                     ELSE IF j = k THEN ProdTo(j - 1) ELSE ProdTo(j - 1) \otimes F(j)
                    IN ProdTo(4)
        T(k) == QV(tab[k][2]) \otimes Basis(k)
    IN SumTo(T, 4)

(* Airfoil data of a station: constant with one airfoil, else interpolated
   linearly between the airfoils' places and constant beyond them. *)
AirfoilPlace(p, a) ==
    IF KindOf(a.at) # "text" THEN QV(a.at)
    ELSE IF a.at \in {"root", "Root", "ROOT"} THEN Zeta(p, 1) ELSE Zeta(p, Nodes(p))
PropAirfoils(p) ==
    LET as == Get(p, "airfoils", << >>)
    IN IF Len(as) <= 1 THEN << >>
       ELSE LET place == [k \in 1..Len(as) |-> AirfoilPlace(p, as[k])]
                Rank(k) == 1 + Cardinality({j \in 1..Len(as) : place[j] \prec place[k]})
            IN [r \in 1..Len(as) |-> LET k == CHOOSE j \in 1..Len(as) : Rank(j) = r
                                     IN [place |-> place[k], af |-> AirfoilOf(as[k]), name |-> as[k].name]]
SectionData(p, sorted, f, z) ==
    LET as == Get(p, "airfoils", << >>)
    IN IF Len(as) = 0 THEN DefaultAirfoil[f]
       ELSE IF Len(as) = 1 THEN AirfoilOf(as[1])[f]
       ELSE LET n == Len(sorted)
                xs == [k \in 1..n |-> sorted[k].place]
                ys == [k \in 1..n |-> sorted[k].af[f]]
            IN InterpFlat(xs, ys, z, ys[1], ys[n])

BladeChord(p, z) ==
    LET c == Get(p, "chord", [type |-> "default"])
        d == Diameter(p)
        ell == RSqrt(R1 \ominus (z \otimes z))
    IN CASE c.type = "default" -> (RQ(75, 1000) \otimes d) \otimes ell
         [] c.type = "elliptical" -> QV(c.root) \otimes ell
         [] c.type = "linear" ->
              LET z0 == Zeta(p, 1)  z1 == Zeta(p, Nodes(p))
                  root == QV(c.root)
                  tip == IF Has(c, "tip") THEN QV(c.tip) ELSE root
              IN root \oplus ((z \ominus z0) \otimes ((tip \ominus root) \oslash (z1 \ominus z0)))
         [] c.type = "from_file" -> (Cubic(c.table, z) \otimes d) \oslash R2
(* Aerodynamic pitch angle (radians): from the zero-lift line. *)
BladePitch(p, z, aL0) ==
    LET t == Get(p, "pitch", [type |-> "default"])
        d == Diameter(p)
        inc == IF Has(t, "increment") THEN Rad(QV(t.increment)) ELSE R0
        pz == Pi \otimes z
        (* the chord line's angle less that of zero lift; next to the hub it may pass a right angle *)
        FromRatio(K) == RAtan2(K \ominus (pz \otimes RTan(aL0)), pz \oplus (K \otimes RTan(aL0)))
        base == CASE t.type = "default" -> FromRatio(Half)
                  [] t.type = "ratio" -> FromRatio(QV(t.value))
                  [] t.type = "value" -> FromRatio(QV(t.value) \oslash d)
                  [] t.type = "from_file" ->
                       LET b == Rad(Cubic(t.table, z))
                           cr == (R2 \otimes Pi) \otimes ((z \otimes d) \otimes Half)
                           lc == cr \otimes RTan(b)
                       IN RAtan2(lc \ominus (cr \otimes RTan(aL0)), cr \oplus (lc \otimes RTan(aL0)))
    IN base \oplus inc

(*************************** stalled airfoils *****************************)
DragCap == RQ(129, 100)       \* 1.11 + 0.018 * 10
Node(p, sorted, i) ==
    LET z == Zeta(p, i)
        d == Diameter(p)
        S(f) == SectionData(p, sorted, f, z)
        aL0 == S("alpha_L0")
        c == BladeChord(p, z)
        r == (z \otimes d) \otimes Half
        cla == S("CL_alpha")
        clm == S("CL_max")
        ast == clm \oslash cla
        cr == c \oslash r
        sep == (RPow(RQ(1517, 10000) \oslash cr, R1 \oslash RQ(1084, 1000)) \otimes cr) \oslash RQ(136, 1000)
        dA == ast \otimes (sep \ominus R1)
        astn == ast \oplus (RQ(15, 10) \otimes aL0)
        clmn == astn \otimes cla
        das == ast \oplus dA
        dasn == RNeg(ast) \oplus dA
        Polar(cl) == (S("CD0") \oplus (S("CD0_L") \otimes cl)) \oplus ((S("CD0_L2") \otimes cl) \otimes cl)
        A(m, a) == ((m \ominus ((DragCap \otimes RSin(a)) \otimes RCos(a))) \otimes RSin(a)) \oslash (RCos(a) \otimes RCos(a))
        B(m, a) == (m \ominus ((DragCap \otimes RSin(a)) \otimes RSin(a))) \oslash RCos(a)
    IN [z |-> z, r |-> r, c |-> c, chatb |-> (RInt(Blades(p)) \otimes c) \oslash d, aL0 |-> aL0,
        beta |-> BladePitch(p, z, aL0), cla |-> cla, ast |-> ast, astn |-> astn, dA |-> dA,
        das |-> das, dasn |-> dasn, cd0 |-> S("CD0"), cd1 |-> S("CD0_L"), cd2 |-> S("CD0_L2"),
        a2 |-> A(clm, ast), b2 |-> B(Polar(das \otimes cla), das),
        a2n |-> A(clmn, astn), b2n |-> B(Polar(dasn \otimes cla), RNeg(dasn))]
BladeNodes(p) == LET sorted == Force(PropAirfoils(p))
                     N(i) == Node(p, sorted, i)
                 IN Map(Nodes(p), N)

LiftBranch(cla, x, ast, a2) ==
    LET lin == cla \otimes x
        st == (RTanh(Deg(x \ominus ast)) \otimes Half) \oplus Half
        vit == ((DragCap \otimes Half) \otimes RSin(R2 \otimes x)) \oplus (((a2 \otimes RCos(x)) \otimes RCos(x)) \oslash RSin(x))
    IN IF x \prec Rad(R2) THEN lin ELSE ((R1 \ominus st) \otimes lin) \oplus (st \otimes vit)
BladeCL(nd, a) ==
    IF R0 \prec a THEN LiftBranch(nd.cla, a \ominus nd.dA, nd.ast, nd.a2) \oplus (nd.cla \otimes nd.dA)
    ELSE IF a \prec R0 THEN RNeg(LiftBranch(nd.cla, RNeg(a) \ominus nd.dA, nd.astn, nd.a2n)) \ominus (nd.cla \otimes nd.dA)
    ELSE R0
BladeCD(nd, a, cl) ==
    IF nd.das \prec a THEN (DragCap \otimes RSq(RSin(a))) \oplus (nd.b2 \otimes RCos(a))
    ELSE IF a \prec nd.dasn THEN (DragCap \otimes RSq(RSin(a))) \oplus (nd.b2n \otimes RCos(a))
    ELSE (nd.cd0 \oplus (nd.cd1 \otimes cl)) \oplus ((nd.cd2 \otimes cl) \otimes cl)
BladeCLslope(nd, a) ==
    LET da == RQ(1, 1000)
    IN ((BladeCL(nd, a \oplus da) \ominus BladeCL(nd, a \ominus da)) \oslash R2) \oslash da

(*************************** vortex condition *****************************)
EinfOf(J, nd) == RAtan2(J, Pi \otimes nd.z)
(* Blade lift against the induced angle with Prandtl's tip correction. *)
TipLoss(p, nds, i) ==
    RAcos(RExp(RNeg((RInt(Blades(p)) \otimes (R1 \ominus nds[i].z)) \oslash (R2 \otimes RSin(nds[Len(nds)].beta)))))
VortexTerms(p, nds, i, J, ei) ==
    LET nd == nds[i]
        einf == EinfOf(J, nd)
    IN << (nd.chatb \oslash (RInt(8) \otimes nd.z)) \otimes BladeCL(nd, (nd.beta \ominus einf) \ominus ei),
          (TipLoss(p, nds, i) \otimes RTan(ei)) \otimes RSin(einf \oplus ei) >>
Balanced(p, nds, i, J, ei) ==
    LET t == VortexTerms(p, nds, i, J, ei)
    IN RAbs(t[1] \ominus t[2]) \preceq (RQ(1, 10000000) \otimes RMax(RQ(1, 100), RMax(RAbs(t[1]), RAbs(t[2]))))
SignRight(nds, i, J, ei) ==
    LET excess == nds[i].beta \ominus EinfOf(J, nds[i])
        tiny == RQ(1, 100000000)
    IN /\ RAbs(ei) \preceq tiny \/ RSign(ei) = RSign(excess)
       (* a blade pitched forward does not turn its angle of attack over *)
       /\ R0 \prec RSin(nds[i].beta) => RAbs(ei) \preceq (RAbs(excess) \oplus tiny)

(********************************* loads **********************************)
(* Coefficients of propeller p at advance ratio J with induced angles ei. *)
BladeSolution(p, nds, J, ei) ==
    LET n == Len(nds)
        Al(i) == (nds[i].beta \ominus EinfOf(J, nds[i])) \ominus ei[i]
        alpha == Map(n, Al)
        Cl(i) == BladeCL(nds[i], alpha[i])
        cl == Map(n, Cl)
        Cd(i) == BladeCD(nds[i], alpha[i], cl[i])
        cd == Map(n, Cd)
        Sl(i) == BladeCLslope(nds[i], alpha[i])
        slope == Map(n, Sl)
        h == nds[2].z \ominus nds[1].z
        F(i) == LET nd == nds[i]
                    einf == EinfOf(J, nd)
                    e == einf \oplus ei[i]
                    c == RCos(e)  s == RSin(e)
                    te == RTan(einf)
                    q1 == RSq(RCos(ei[i]))
                    q0 == q1 \oslash RSq(RCos(einf))
                    ax == (cl[i] \otimes c) \ominus (cd[i] \otimes s)
                    tg == (cd[i] \otimes c) \oplus (cl[i] \otimes s)
                    z2 == nd.z \otimes nd.z
                    z3 == z2 \otimes nd.z
                    up == slope[i] \oplus cd[i]
                IN << ((z2 \otimes nd.chatb) \otimes q0) \otimes ax,
                      ((z3 \otimes nd.chatb) \otimes q0) \otimes tg,
                      ((z2 \otimes nd.chatb) \otimes q1) \otimes
                          (((R2 \otimes te) \otimes tg) \ominus ((te \otimes te) \otimes ((cl[i] \otimes c) \ominus (up \otimes s)))),
                      ((z3 \otimes nd.chatb) \otimes q1) \otimes
                          (((R2 \otimes te) \otimes ax) \oplus ((te \otimes te) \otimes ((up \otimes c) \oplus (cl[i] \otimes s)))) >>
        f == Map(n, F)
        Integ(k) == LET y == Force([i \in 1..n |-> f[i][k]]) IN Simpson(y, h)
        Mag(k) == LET y == Force([i \in 1..n |-> RAbs(f[i][k])]) IN Simpson(y, h)
        pp == Pi \otimes Pi
    IN [alpha |-> alpha, cl |-> cl, cd |-> cd,
        CT |-> (pp \oslash RInt(4)) \otimes Integ(1), Cl |-> (pp \oslash RInt(8)) \otimes Integ(2),
        CN |-> (pp \oslash RInt(8)) \otimes Integ(3), Cn |-> (pp \oslash RInt(16)) \otimes Integ(4),
        mag |-> (pp \oslash RInt(4)) \otimes RMax(RMax(Mag(1), Mag(2)), RMax(Mag(3), Mag(4)))]

(* Angle between two vectors, robust at 0 and 180 degrees. *)
AngleBetween(a, b) == RAcos(RMax(RInt(-1), RMin(R1, Dot(a, b) \oslash (Norm(a) \otimes Norm(b)))))
(* Force, moment, thrust and torque of propeller p in freestream direction u. *)
PropLoads(D, p, sol, rho, rate, u) ==
    LET d == Diameter(p)
        fw == Forward(p)
        d4 == RSq(RSq(d))
        q4 == (rho \otimes RSq(rate)) \otimes d4
        q5 == q4 \otimes d
        ang == AngleBetween(fw, VNeg(u))
        nd0 == Cross(Cross(VNeg(u), fw), fw)
        nm == Norm(nd0)
        nvec == IF R0 \prec nm THEN VScale(R1 \oslash nm, nd0) ELSE VZero
        T == q4 \otimes sol.CT
        l == RNeg((q5 \otimes sol.Cl) \otimes Rotation(p))
        N == (q4 \otimes sol.CN) \otimes ang
        yaw == (q5 \otimes sol.Cn) \otimes ang
        F == VAdd(VScale(T, fw), VScale(N, nvec))
        arm == VSub(PropPos(p), CG(D))
        M == VAdd(Cross(arm, F), VAdd(VScale(Rotation(p) \otimes yaw, nvec), VScale(l, fw)))
    IN [F |-> F, M |-> M, T |-> T, l |-> l, N |-> N, yaw |-> yaw, angle |-> ang, nvec |-> nvec,
        fscale |-> q4 \otimes sol.mag,
        mscale |-> (q5 \otimes sol.mag) \oplus (Norm(arm) \otimes (q4 \otimes sol.mag))]

(* Motor torque at a rotation rate for a throttle (in the airplane's units). *)
MotorTorque(m, throttle, rate, units) ==
    LET Q(f) == QV(m[f])
        ns == R1 \ominus (RQ(79, 1000) \otimes (R1 \ominus throttle))
        gk == Q("gear_reduction") \oslash Q("motor_kv")
        im == (((ns \otimes throttle) \otimes Q("battery_voltage")) \ominus (gk \otimes (rate \otimes RInt(60))))
              \oslash (((ns \otimes throttle) \otimes Q("battery_resistance"))
                       \oplus (Q("speed_control_resistance") \oplus Q("motor_resistance")))
        tq == (RQ(70432, 10000) \otimes gk) \otimes (im \ominus Q("motor_no_load_current"))
    IN IF units = "English" THEN tq
       ELSE tq \otimes (RQ(13558179, 10000000) \oplus (RQ(483314, 1000000000) \otimes RQ(1, 10000000)))
=============================================================================
