----------------------------- MODULE LiftingLine -----------------------------
(***************************************************************************)
(* The numerical lifting line: onset flow, control deflections, horseshoe  *)
(* vortex influence, the linear system for the vortex strengths, and the   *)
(* loads they imply. `aero' and `ctl' are records of reals whose left-out  *)
(* fields mean their defaults.                                             *)
(***************************************************************************)
EXTENDS Grid

RGet(r, f) == IF Has(r, f) THEN r[f] ELSE R0

(******************************* onset flow *******************************)
(* Freestream direction of angle of attack a and sideslip b (degrees).     *)
FreeDir(a, b) ==
    LET ca == RCos(Rad(a))  sa == RSin(Rad(a))
        cb == RCos(Rad(b))  sb == RSin(Rad(b))
        k == R1 \oslash RSqrt(R1 \ominus (((sa \otimes sa) \otimes sb) \otimes sb))
    IN << RNeg(k \otimes (ca \otimes cb)), RNeg(k \otimes (ca \otimes sb)), RNeg(k \otimes (sa \otimes cb)) >>

HasRates(aero) == \E f \in {"roll_rate", "pitch_rate", "yaw_rate"} : Has(aero, f)
(* The onset flow at the sections: velocities, densities and the freestream direction. *)
Flow(D, g, aero) ==
    LET n == Len(g)
        loc == Has(aero, "local_state")
        dir == FreeDir(RGet(aero, "alpha"), RGet(aero, "beta"))
        omega == <<RGet(aero, "roll_rate"), RGet(aero, "pitch_rate"), RGet(aero, "yaw_rate")>>
        Base(i) == IF loc THEN <<aero.local_state[i][2], aero.local_state[i][3], aero.local_state[i][4]>>
                   ELSE VScale(aero.V_mag, dir)
        V(i) == IF HasRates(aero) THEN VSub(Base(i), Cross(omega, VSub(g[i].r, CG(D)))) ELSE Base(i)
        Rho(i) == IF loc THEN aero.local_state[i][1] ELSE aero.rho
    IN [v |-> Map(n, V), rho |-> Map(n, Rho),
        u |-> IF loc /\ ~Has(aero, "V_mag") THEN Unit(VSumTo(Base, n)) ELSE dir]
(* The flow of a lifting-line solve that is not given any flow state. *)
DefaultFlow(g) ==
    LET n == Len(g)
        V(i) == <<RInt(-10), R0, R0>>
        Rho(i) == R1
    IN [v |-> Map(n, V), rho |-> Map(n, Rho), u |-> <<RInt(-1), R0, R0>>]

(******************************* controls *********************************)
Deflection(sec, ctl) ==
    Rad((((RGet(ctl, "aileron") \otimes sec.aileron) \oplus (RGet(ctl, "elevator") \otimes sec.elevator))
         \oplus (RGet(ctl, "rudder") \otimes sec.rudder)) \oplus (RGet(ctl, "flap") \otimes sec.flap))
LargeDeflection(delta) ==
    LET a == RAbs(Deg(delta))
    IN IF RInt(11) \prec a
       THEN (RQ(-34, 3900) \otimes a) \oplus RQ(4274, 3900)
       ELSE R1

(******************************* influence ********************************)
Trailing(u, r) == LET m == Norm(r) IN VScale(R1 \oslash (m \otimes (m \ominus Dot(u, r))), Cross(u, r))
Bound(ra, rb) ==
    LET ma == Norm(ra)  mb == Norm(rb)  mm == ma \otimes mb
    IN VScale((ma \oplus mb) \oslash (mm \otimes (mm \oplus Dot(ra, rb))), Cross(ra, rb))
(* Velocity per unit strength at section i from the horseshoe vortex of section j. *)
Influence(g, u, i, j) ==
    LET ra == VSub(g[i].r, g[j].r1)
        rb == VSub(g[i].r, g[j].r2)
        legs == VSub(Trailing(u, rb), Trailing(u, ra))
    IN VScale(R1 \oslash (RInt(4) \otimes Pi), IF i = j THEN legs ELSE VAdd(legs, Bound(ra, rb)))
(* How far every control point stays from every trailing vortex (relative). *)
Clear(g, u, tol) ==
    \A i, j \in 1..Len(g) :
        LET ra == VSub(g[i].r, g[j].r1)
            rb == VSub(g[i].r, g[j].r2)
            ok(r) == LET m == Norm(r) IN (tol \otimes m) \prec (m \ominus Dot(u, r))
        IN /\ ok(ra) /\ ok(rb)
           /\ i = j \/ LET mm == Norm(ra) \otimes Norm(rb) IN (tol \otimes mm) \prec (mm \oplus Dot(ra, rb))

(******************************* solution *********************************)
Blend(sec, F(_)) == LET l == F(sec.L) IN l \oplus (sec.s \otimes (F(sec.R) \ominus l))

WindAxes(u) ==
    LET l == Unit(Cross(u, <<R0, R1, R0>>))
    IN [u |-> u, l |-> l, s |-> Unit(Cross(l, u))]
InWind(F, u) ==
    LET w == WindAxes(u)
        d == Dot(F, u)
        l == Dot(F, w.l)
        rest == VSub(VSub(F, VScale(l, w.l)), VScale(d, u))
    IN [FL |-> l, FD |-> d, FS |-> Dot(rest, w.s)]
Load(F, M, u) == InWind(F, u) @@ [FX |-> F[1], FY |-> F[2], FZ |-> F[3],
                                  MX |-> M[1], MY |-> M[2], MZ |-> M[3]]
LoadNames == {"FL", "FD", "FS", "FX", "FY", "FZ", "MX", "MY", "MZ"}
LoadAdd(a, b) == [k \in LoadNames |-> a[k] \oplus b[k]]

SolveLL(D, g, flow, ctl) ==
    LET n == Len(g)
        u == flow.u
        W == Force([i \in 1..n |-> Force([j \in 1..n |-> Influence(g, u, i, j)])])
        Dl(i) == Deflection(g[i], ctl)
        delta == Map(n, Dl)
        Fl(i) == (g[i].eff \otimes LargeDeflection(delta[i])) \otimes delta[i]
        flap == Map(n, Fl)
        Vm(i) == Norm(flow.v[i])
        vm == Map(n, Vm)
        (* lift of section i in the onset flow alone *)
        Cl0(i) == LET a == RAtan(Dot(flow.v[i], g[i].un) \oslash Dot(flow.v[i], g[i].ua))
                      F(af) == af.CL_alpha \otimes (a \oplus (flap[i] \ominus af.alpha_L0))
                  IN Blend(g[i], F)
        Row(i) == LET k == RNeg((vm[i] \otimes g[i].dS) \otimes g[i].CL_alpha)
                      E(j) == IF j = n + 1
                              THEN ((vm[i] \otimes vm[i]) \otimes g[i].dS) \otimes Cl0(i)
                              ELSE LET a == k \otimes Dot(W[i][j], g[i].un)
                                   IN IF i = j THEN a \oplus (R2 \otimes Norm(Cross(flow.v[i], g[i].dl))) ELSE a
                  IN Map(n + 1, E)
        sol == LinSolve(Map(n, Row))
        gam == Force(sol.x)
        Vi(i) == LET T(j) == VScale(gam[j], W[i][j]) IN VAdd(flow.v[i], VSumTo(T, n))
        vi == Map(n, Vi)
        Al(i) == RAtan2(Dot(vi[i], g[i].un), Dot(vi[i], g[i].ua))
        alpha == Map(n, Al)
        q == [i \in 1..n |-> (Half \otimes flow.rho[i]) \otimes (vm[i] \otimes vm[i])]
        Cl(i) == LET F(af) == af.CL_alpha \otimes (alpha[i] \ominus af.alpha_L0) IN Blend(g[i], F)
        cl == Map(n, Cl)
        Cd(i) == LET F(af) == (af.CD0 \oplus (af.CD0_L \otimes cl[i])) \oplus ((af.CD0_L2 \otimes cl[i]) \otimes cl[i])
                 IN Blend(g[i], F) \oplus (RQ(2, 1000) \otimes RAbs(Deg(delta[i])))
        cd == Map(n, Cd)
        Cm(i) == LET F(af) == af.Cm_L0 \oplus (af.Cm_alpha \otimes (alpha[i] \ominus af.alpha_L0))
                 IN Blend(g[i], F) \oplus (delta[i] \otimes g[i].cmd)
        cm == Map(n, Cm)
        Fi(i) == VScale(flow.rho[i] \otimes gam[i], Cross(vi[i], g[i].dl))
        force == Map(n, Fi)
        Fp(i) == VScale((q[i] \otimes (cd[i] \otimes g[i].dS)) \oslash Norm(vi[i]), vi[i])
        drag == Map(n, Fp)
        Arm(i) == VSub(g[i].r, CG(D))
        Mi(i) == VAdd(VScale(RNeg(q[i] \otimes (cm[i] \otimes g[i].ic2)), g[i].us), Cross(Arm(i), force[i]))
        Mp(i) == Cross(Arm(i), drag[i])
        inv == Load(VSumTo(Fi, n), VSumTo(Mi, n), u)
        vis == Load(VSumTo(Fp, n), VSumTo(Mp, n), u)
        (* sums of magnitudes: the natural scale of rounding errors *)
        Fs(i) == Norm(force[i]) \oplus Norm(drag[i])
        Ms(i) == (Norm(Arm(i)) \otimes Fs(i)) \oplus RAbs(q[i] \otimes (cm[i] \otimes g[i].ic2))
    IN [gamma |-> gam, vi |-> vi, alpha |-> alpha, cl |-> cl, cd |-> cd, cm |-> cm,
        force |-> force, drag |-> drag, delta |-> delta,
        inviscid |-> inv, viscous |-> vis, total |-> LoadAdd(inv, vis),
        fscale |-> SumTo(Fs, n), mscale |-> SumTo(Ms, n), ratio |-> sol.ratio]

(* A case is compared only when it is numerically well posed. *)
WellPosed(g, flow, sol) ==
    /\ Clear(g, flow.u, RQ(1, 100000))
    /\ RQ(1, 1000000) \prec sol.ratio
    /\ \A i \in 1..Len(g) : RQ(1, 1000) \prec (Dot(flow.v[i], g[i].ua) \oslash Norm(flow.v[i]))
                           /\ RQ(1, 1000) \prec (Norm(sol.vi[i]) \oslash Norm(flow.v[i]))
=============================================================================
