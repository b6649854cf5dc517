---------------------------- MODULE AnalysisChecks ----------------------------
(* The analyses: derivatives, targets, stall, aerodynamic centre, saved files. *)
EXTENDS RelChecks

Saves(ev) == Has(ev.call, "file")
FileJson(ev) == IF Has(ev, "file") /\ Has(ev.file, "json") THEN ev.file.json ELSE << >>
IsError(r, what) == IsRec(r) /\ DOMAIN r = {"error"} /\ r.error = what
ForcesScale(l) == RMax(Floor12, ForceSize(l))
FailedAs(ev, what) ==       \* the documented failure
    IF Saves(ev) THEN ev.out = "ok" /\ IsError(FileJson(ev), what)
    ELSE ev.out = "exc:RuntimeError"

PosedDry(D, ev) ==      \* without the slipstream: no two sections of the airplane coincide
    \/ ~HasWings(D)
    \/ LET g == Sections(D, TRUE)
           fl == EventFlow(D, g, ev)
       IN WellPosed(g, fl, SolveLL(D, g, fl, Args(ev, "ctl")))

(********************************* P11 ************************************)
DerivGroups == [stability_derivatives |-> <<"alpha", "beta">>,
                control_derivatives |-> <<"aileron", "elevator", "rudder", "flap">>,
                damping_derivatives |-> <<"roll_rate", "pitch_rate", "yaw_rate">>]
Suffix == [alpha |-> "a", beta |-> "b", aileron |-> "da", elevator |-> "de", rudder |-> "dr", flap |-> "df",
           roll_rate |-> "pbar", pitch_rate |-> "qbar", yaw_rate |-> "rbar"]
CoefLoad == << <<"CL", "FL">>, <<"CD", "FD">>, <<"CS", "FS">>, <<"CX", "FX">>, <<"CY", "FY">>, <<"CZ", "FZ">>,
               <<"Cl", "MX">>, <<"Cm", "MY">>, <<"Cn", "MZ">> >>
AeroVars == {"alpha", "beta", "roll_rate", "pitch_rate", "yaw_rate"}
GroupOf(ev, g) == CASE ev.op = "derivs" -> IF Has(ev.res, g) THEN ev.res[g] ELSE << >>
                    [] ev.op = "stab" -> IF g = "stability_derivatives" THEN ev.res ELSE << >>
                    [] ev.op = "ctrl" -> IF g = "control_derivatives" THEN ev.res ELSE << >>
                    [] ev.op = "damp" -> IF g = "damping_derivatives" THEN ev.res ELSE << >>
GroupsIn(ev) == CASE ev.op = "derivs" -> DOMAIN DerivGroups
                  [] ev.op = "stab" -> {"stability_derivatives"}
                  [] ev.op = "ctrl" -> {"control_derivatives"}
                  [] OTHER -> {"damping_derivatives"}
AeroGiven(ev) == IF HasArg(ev, "aero") THEN ev.args.aero ELSE DefaultAero
(* How far an input is moved, and the same in the unit the derivative is taken per. *)
Step(D, V, var) ==
    LET two == R2 \otimes V
    IN CASE var \in {"alpha", "beta"} -> <<Half, Rad(Half)>>
         [] var = "pitch_rate" -> <<(RQ(5, 1000) \otimes two) \oslash LongRef(D), RQ(5, 1000)>>
         [] var \in {"roll_rate", "yaw_rate"} -> <<(RQ(5, 1000) \otimes two) \oslash LatRef(D), RQ(5, 1000)>>
         [] OTHER -> <<RQ(1, 4), Rad(RQ(1, 4))>>
PertMate(S, i, var, sign) ==
    LET e == S.events[i]
        Js == {j \in 1..Len(S.events) : LET f == S.events[j] IN f.op = "solve_pert" /\ f.out = "ok" /\ f.call.var = var /\ f.call.sign = sign}
    IN IF Js = {} THEN 0 ELSE CHOOSE j \in Js : TRUE
(* The perturbed solve was made with the inputs it is about. *)
PertAsked(D, ev) ==
    LET var == ev.call.var
        a == AeroGiven(ev)
        aero == ev.used.aero
        ctl == Get(ev.used, "ctl", << >>)
        given == Args(ev, "ctl")
        d == RSgn(ev.call.sign) \otimes Step(D, a.V_mag, var)[1]
        Want(r, f) == IF f = var THEN RGet(r, f) \oplus d ELSE RGet(r, f)
        Good(f, got, want) == RClose(want, got, Exact, R1)
    IN /\ \A f \in AeroVars : Good(f, RGet(aero, f), Want(a, f))
       /\ \A f \in {"V_mag", "rho"} : aero[f] = a[f]
       /\ \A f \in {"aileron", "elevator", "rudder", "flap"} : Good(f, RGet(ctl, f), Want(given, f))
       /\ SameText(Get(ev.used, "prop", "none"), Get(ev.args, "prop", "none"))
DerivClauses(S, i, D, ev) ==
    LET a == AeroGiven(ev)
        q == ((Half \otimes a.rho) \otimes (a.V_mag \otimes a.V_mag)) \otimes RefArea(D)
        long == LongRef(D)
        lat == LatRef(D)
        tol == IF HasProps(D) THEN RQ(1, 10000000) ELSE Tiny
        Solved(var, sign) == LET m == PertMate(S, i, var, sign) IN IF m = 0 THEN FALSE ELSE IsLoad(S.events[m].res)
        RefFor(c) == CASE c \in {"Cl", "Cn"} -> lat [] c = "Cm" -> long [] OTHER -> R1
        AllNames(g) == {CoefLoad[k][1] \o "_" \o Suffix[v] : k \in 1..9, v \in {DerivGroups[g][x] : x \in 1..Len(DerivGroups[g])}}
                    \cup (IF g = "stability_derivatives" /\ ev.op = "derivs" THEN {"static_margin"} ELSE {})
        Right(got, var, k) ==
            LET fw == S.events[PertMate(S, i, var, 1)].res
                bk == S.events[PertMate(S, i, var, -1)].res
                st == Step(D, a.V_mag, var)[2]
                ld == CoefLoad[k][2]
                den == ((R2 \otimes st) \otimes q) \otimes RefFor(CoefLoad[k][1])
                sz == IF ld \in MomentNames THEN RMax(RMax(MomentSize(fw), MomentSize(bk)), RMax(ForceSize(fw), ForceSize(bk)) \otimes long)
                      ELSE RMax(ForceSize(fw), ForceSize(bk))
                want == (fw[ld] \ominus bk[ld]) \oslash den
            IN RealIs(got, want, tol, sz \oslash den)
        All(g) == LET r == GroupOf(ev, g)
                  IN IF DOMAIN r # AllNames(g) THEN << C("every " \o g \o " combination is there", FALSE) >>
                     ELSE [x \in 1..Len(DerivGroups[g]) |->
                              LET var == DerivGroups[g][x]
                              IN IF ~Solved(var, 1) \/ ~Solved(var, -1) THEN Skip("rates with " \o var)
                                 ELSE C("rates of change with " \o var,
                                        \A k \in 1..9 : Right(r[CoefLoad[k][1] \o "_" \o Suffix[var]], var, k))]
        st == GroupOf(ev, "stability_derivatives")
        RECURSIVE Join(_)
        Join(gs) == IF gs = {} THEN << >> ELSE LET g == CHOOSE g \in gs : TRUE IN All(g) \o Join(gs \ {g})
    IN (IF ev.op = "derivs" THEN << C("three groups", IsRec(ev.res) /\ DOMAIN ev.res = DOMAIN DerivGroups) >> ELSE << >>)
       \o Join(GroupsIn(ev))
       \o (IF ev.op = "derivs" /\ Has(st, "static_margin") /\ HasAll(st, {"Cm_a", "CL_a"})
           THEN << CIf(RQ(1, 1000) \prec RAbs(st.CL_a), "static margin", RealIs(st.static_margin, RNeg(st.Cm_a \oslash st.CL_a), Tiny, Floor12)) >>
           ELSE << >>)

(********************************* P12 ************************************)
OracleFlow(D, g, aero, var, x) ==
    Flow(D, g, [f \in (DOMAIN aero) \cup {var} |-> IF f = var THEN x ELSE aero[f]])
(* Loads of the specification's own solution; NaN-free only where it is posed. *)
OracleLoads(D, g, aero, ctl, alpha) ==
    LET fl == OracleFlow(D, g, aero, "alpha", alpha)
        sol == SolveLL(D, g, fl, ctl)
    IN [t |-> sol.total, posed |-> WellPosed(g, fl, sol), fs |-> sol.fscale, ms |-> sol.mscale]
ErrorBound(ev) == IF Has(ev.call, "error") THEN QV(ev.call.error) ELSE Tiny
(* The secant iteration, on the specification's loads: does it settle quickly? *)
RECURSIVE Secant(_, _, _, _, _, _, _)
Secant(F(_), x0, y0, x1, y1, error, left) ==
    LET x2 == x1 \ominus ((y1 \otimes (x1 \ominus x0)) \oslash (y1 \ominus y0))
    IN IF ~RFin(x2) \/ RInt(60) \prec RAbs(x2) \/ left = 0 THEN FALSE
       ELSE IF RAbs(x2 \ominus x1) \prec (error \oslash R2) THEN TRUE
       ELSE LET f == F(x2)
            IN f.posed /\ Secant(F, x1, y1, x2, f.y, error, left - 1)
SecantStart(x0) == (x0 \oplus (Half \otimes RAbs(x0))) \oplus RQ(1, 10)
LiftReachable(D, ev) ==
    LET g == Sections(D, TRUE)
        a == AeroGiven(ev)
        L == QV(ev.call.L)
        F(x) == LET o == OracleLoads(D, g, a, Args(ev, "ctl"), x) IN [y |-> o.t.FL \ominus L, posed |-> o.posed]
        x0 == RGet(a, "alpha")
        x1 == SecantStart(x0)
        f0 == F(x0)
        f1 == F(x1)
    IN f0.posed /\ f1.posed /\ Secant(F, x0, f0.y, x1, f1.y, RMin(ErrorBound(ev), RQ(1, 100)), 12)
CtlWith(ctl, de) == [f \in (DOMAIN ctl) \cup {"elevator"} |-> IF f = "elevator" THEN de ELSE ctl[f]]
(* Newton's iteration for lift and pitching moment, on the specification's loads. *)
RECURSIVE NewtonTrim(_, _, _, _, _, _, _, _, _)
NewtonTrim(D, g, aero, ctl, x, L, M, error, left) ==
    LET At(a, e) == OracleLoads(D, g, aero, CtlWith(ctl, e), a)
        now == At(x[1], x[2])
        f == <<now.t.FL \ominus L, now.t.MY \ominus M>>
        d == RQ(1, 4)
        slope(hi, lo, k) == (hi.t[k] \ominus lo.t[k]) \oslash (R2 \otimes d)
        ap == At(x[1] \oplus d, x[2])  am == At(x[1] \ominus d, x[2])
        ep == At(x[1], x[2] \oplus d)  em == At(x[1], x[2] \ominus d)
        la == slope(ap, am, "FL")  le == slope(ep, em, "FL")
        ma == slope(ap, am, "MY")  me == slope(ep, em, "MY")
        det == (la \otimes me) \ominus (le \otimes ma)
        dx == <<((le \otimes f[2]) \ominus (me \otimes f[1])) \oslash det, ((ma \otimes f[1]) \ominus (la \otimes f[2])) \oslash det>>
    IN IF ~now.posed \/ left = 0 \/ RInt(40) \prec RAbs(x[1]) \/ RInt(40) \prec RAbs(x[2]) THEN FALSE
       ELSE IF RAbs(f[1]) \prec (Half \otimes error) /\ RAbs(f[2]) \prec (Half \otimes error)
            THEN (Tiny \otimes (now.fs \oplus now.ms)) \prec (RInt(1000) \otimes error)
       ELSE RFin(dx[1]) /\ RFin(dx[2])
            /\ RQ(1, 1000) \prec (RAbs(det) \oslash ((RAbs(la) \oplus RAbs(le)) \otimes (RAbs(ma) \oplus RAbs(me))))
            /\ NewtonTrim(D, g, aero, ctl, <<x[1] \oplus dx[1], x[2] \oplus dx[2]>>, L, M, error, left - 1)
Moved(D, ev) == \E i \in 1..Len(Halves(D)) : Halves(D)[i].control.elevator # R0
OnElevator(D, g) == \E i \in 1..Len(g) : g[i].on /\ g[i].elevator # R0 /\ g[i].eff # R0
(* A symmetric vertical surface, say, changes neither lift nor pitching moment. *)
ElevatorActs(D, g, ev) ==
    LET At(e) == OracleLoads(D, g, AeroGiven(ev), CtlWith(Args(ev, "ctl"), e), R0)
        up == At(RQ(1, 4))  down == At(RQ(-1, 4))
    IN up.posed /\ down.posed /\
       ((Tiny \otimes up.fs) \prec RAbs(up.t.FL \ominus down.t.FL) \/ (Tiny \otimes up.ms) \prec RAbs(up.t.MY \ominus down.t.MY))
MomentTarget(ev) == IF Has(ev.call, "M") THEN QV(ev.call.M) ELSE R0
Answers(ev, fs) == ev.out = "ok" /\ HasAll(ev.res, fs) /\ \A f \in fs : RIsReal(ev.res[f]) /\ RFin(ev.res[f])
(* The state that an earlier answer describes, flown. *)
FlownAt(S, i, D, ev) ==
    LET of == S.events[ev.call.of]
        given == AeroGiven(of)
        moved == Has(ev.call, "dalpha")
        L == QV(of.call.L)
        met == ev.res
        near == S.events[i + 1].res
        err == ErrorBound(of)
        sz == RMax(ForceSize(met), RAbs(L))
        msz == RMax(MomentSize(met), sz \otimes LongRef(D))
        tol == IF HasProps(D) THEN RQ(1, 10000000) ELSE RQ(1, 10000) \otimes RQ(1, 1000000)
        slack == IF err \prec RQ(1, 1000) THEN R2 ELSE RInt(10)     \* a long last secant step lands less exactly
        asked == /\ \A f \in AeroVars \ {"alpha"} : RGet(ev.used.aero, f) = RGet(given, f)
                 /\ \A f \in {"V_mag", "rho"} : ev.used.aero[f] = given[f]
        slope == RAbs(near.FL \ominus met.FL) \otimes RInt(100)
    IN IF moved \/ of.out # "ok" \/ ~IsRec(of.res) \/ ~Has(of.res, "alpha") THEN << >>
       ELSE IF of.op = "target_lift"
       THEN << CIf(RAbs(of.res.alpha) \preceq RInt(60) /\ (HasProps(D) => err \prec RQ(1, 1000)),   \* a slipstream edge is a jump
                   "the target lift is produced", asked /\
                 RAbs(met.FL \ominus L) \preceq (((slack \otimes slope) \otimes err) \oplus (tol \otimes sz))) >>
       ELSE << C("the trimmed loads are produced", asked /\
                 RAbs(met.FL \ominus L) \preceq (err \oplus (tol \otimes sz)) /\
                 RAbs(met.MY \ominus MomentTarget(of)) \preceq (err \oplus (tol \otimes msz))) >>
TargetClauses(S, i, D, ev) ==
    LET g == Sections(D, TRUE)
        sure == ~HasProps(D) /\ OffEdges(D, g)
    IN CASE ev.op = "target_lift" ->
              << C("a state or the documented failure", Answers(ev, {"alpha"}) \/ FailedAs(ev, "unliftable")),
                 CIf(sure /\ LiftReachable(D, ev), "a lift within reach is met", Answers(ev, {"alpha"})) >>
              \o (IF Answers(ev, {"alpha"}) THEN << C("only the angle of attack", DOMAIN ev.res = {"alpha"}) >> ELSE << >>)
         [] ev.op = "pitch_trim" ->
              LET elev == OnElevator(D, g)
              IN << C("a state or the documented failure",
                      Answers(ev, {"alpha", "elevator"}) \/ FailedAs(ev, "no_elevator") \/ FailedAs(ev, "untrimmable")),
                    CIf(~elev /\ Saves(ev) /\ PosedDry(D, ev), "no elevator is said so", Answers(ev, {"alpha", "elevator"}) \/ FailedAs(ev, "no_elevator")),
                    CIf(elev /\ Saves(ev) /\ ElevatorActs(D, g, ev), "an elevator is found", ~FailedAs(ev, "no_elevator")),
                    CIf(sure /\ elev /\ NewtonTrim(D, g, AeroGiven(ev), Args(ev, "ctl"), <<R0, R0>>, QV(ev.call.L), MomentTarget(ev), ErrorBound(ev), 9),
                        "a trim within reach is found", Answers(ev, {"alpha", "elevator"})) >>
         [] ev.op = "solve_at" -> IF ev.out # "ok" THEN << Answered(ev) >> ELSE FlownAt(S, i, D, ev)
         [] OTHER -> << Answered(ev) >>

(********************************* P13 ************************************)
StallKeys == {"alpha", "lift", "stalled_wing", "span_location"}
Exceeding(g, row) == {k \in 1..Len(g) : g[k].CL_max \prec row[k]}
(* Far enough from the limit for rounding not to matter. *)
Decided(g, row) == \A k \in 1..Len(g) : RFin(row[k]) /\ RQ(1, 10000000) \prec RAbs(row[k] \ominus g[k].CL_max)
FirstOf(ks) == CHOOSE k \in ks : \A j \in ks : k <= j
FromRoot(D, g, k) == IF Halves(D)[g[k].half].side = "right" THEN g[k].s ELSE R1 \ominus g[k].s
Unmoved(D, ev) == ~HasProps(D) /\ \A f \in {"roll_rate", "pitch_rate", "yaw_rate"} : RGet(AeroGiven(ev), f) = R0
StallAnswer(ev) == ev.out = "ok" /\ HasAll(ev.res, StallKeys) /\ RIsReal(ev.res.alpha) /\ RIsReal(ev.res.lift)
StallClauses(S, i, D, ev) ==
    CASE ev.op = "stall_onset" ->
           << C("an answer or the documented failure", StallAnswer(ev) \/ FailedAs(ev, "unstallable")) >>
      [] ev.op = "stall_speed" ->
           LET on == S.events[2]
               sure == Unmoved(D, ev) /\ StallAnswer(on) /\ (RQ(1, 1000) \otimes QV(ev.call.weight)) \prec on.res.lift
           IN << C("an answer or the documented failure",
                   (StallAnswer(ev) /\ Has(ev.res, "airspeed") /\ RIsReal(ev.res.airspeed)) \/ FailedAs(ev, "unstallable") \/ ev.out = "exc:RuntimeError"),
                 CIf(sure, "a stall airspeed within reach is found", StallAnswer(ev) /\ Has(ev.res, "airspeed")) >>
      [] ev.op = "sweep_to" /\ ev.out = "ok" ->
           LET of == S.events[ev.call.of]
               g == Sections(D, TRUE)
               rows == ev.res.rows
               n == Len(rows)
               last == rows[n]
               ex == Exceeding(g, last)
               k == FirstOf(ex)
               ans == of.res
               speed == of.op = "stall_speed"
               settled == ~speed \/ Unmoved(D, of)
               decided == \A r \in 1..n : Decided(g, rows[r])
               W == QV(of.call.weight)
               V == ans.airspeed
               well == OracleLoads(D, g, AeroGiven(of), Args(of, "ctl"), ans.alpha).posed
               near == RQ(1, 100000)      \* high angles of attack magnify the rounding of the sweep's angle
           IN IF ~StallAnswer(of)
              THEN IF speed THEN << >>
                   ELSE << CIf(decided, "nothing stalls below 90 degrees", \A r \in 1..n : Exceeding(g, rows[r]) = {}) >>
              ELSE << C("the angle is on the tenth-of-a-degree grid", RealIs(ans.alpha, ev.res.top, Exact, R1) /\ R0 \preceq ans.alpha),
                      CIf(settled /\ decided, "nothing stalls before", \A r \in 1..(n - 1) : Exceeding(g, rows[r]) = {}),
                      CIf(settled /\ decided, "a section exceeds its maximum lift", ex # {}),
                      CIf(settled /\ decided /\ ex # {}, "the wing and place of the first section",
                          ans.stalled_wing = g[k].name /\ RealIs(ans.span_location, FromRoot(D, g, k), Exact, R1)),
                      IF speed
                      THEN CIf(settled /\ well, "lift is weight at the stall speed", RFin(V) /\ R0 \prec V /\
                             RAbs(ev.res.FL \ominus W) \preceq ((RQ(1, 1000000) \otimes RAbs(W)) \oplus
                                  (((RInt(8) \otimes RAbs(W)) \oslash RAbs(V)) \otimes ErrorBound(of))))
                      ELSE CIf(well, "the lift is the airplane's at that angle", RealIs(ans.lift, ev.res.FL, near, RAbs(ev.res.FL))) >>
                   \o (IF speed THEN << CIf(settled, "the reported lift is the weight",
                             RAbs(ans.lift \ominus W) \preceq ((RQ(1, 100000000) \otimes RAbs(W)) \oplus
                                  (((RInt(8) \otimes RAbs(W)) \oslash RAbs(V)) \otimes ErrorBound(of)))) >> ELSE << >>)
      [] OTHER -> << Answered(ev) >>

(********************************* P20 ************************************)
Sum2(F(_), n) == SumTo(F, n)
Centre(D, aero, rows) ==
    LET n == Len(rows)
        q == ((Half \otimes aero.rho) \otimes (aero.V_mag \otimes aero.V_mag)) \otimes RefArea(D)
        long == LongRef(D)
        Al(i) == Rad(RInt(-10) \oplus (RInt(i - 1) \otimes RQ(1, 20)))
        al == Map(n, Al)
        Cc(i) == RCos(al[i])   Ss(i) == RSin(al[i])
        c == Map(n, Cc)        s == Map(n, Ss)
        Nn(i) == RNeg(rows[i][2]) \oslash q     Aa(i) == RNeg(rows[i][1]) \oslash q
        Mm(i) == (rows[i][3] \oslash q) \oslash long
        N == Map(n, Nn)   A == Map(n, Aa)   M == Map(n, Mm)
        Ll(i) == (N[i] \otimes c[i]) \ominus (A[i] \otimes s[i])
        Dd(i) == (A[i] \otimes c[i]) \oplus (N[i] \otimes s[i])
        L == Map(n, Ll)   Dr == Map(n, Dd)
        S2(x, y) == LET T(i) == x[i] \otimes y[i] IN SumTo(T, n)
        S1(x) == LET T(i) == x[i] IN SumTo(T, n)
        aL0 == RAtan(((S2(L, c) \otimes S2(s, s)) \ominus (S2(L, s) \otimes S2(s, c)))
                      \oslash ((S2(L, c) \otimes S2(s, c)) \ominus (S2(L, s) \otimes S2(c, c))))
        t0 == RTan(aL0)
        Bb(i) == s[i] \ominus (t0 \otimes c[i])
        B == Map(n, Bb)
        La == S2(L, B) \oslash S2(B, B)
        L2f(i) == L[i] \otimes L[i]
        L2 == Map(n, L2f)
        drag == LinSolve(<< <<RInt(n), S1(L), S1(L2), S1(Dr)>>,
                            <<S1(L), S1(L2), S2(L2, L), S2(Dr, L)>>,
                            <<S1(L2), S2(L2, L), S2(L2, L2), S2(Dr, L2)>> >>)
        Tf(i) == RSin(R2 \otimes al[i])
        T == Map(n, Tf)
        mom == LinSolve(<< <<S2(T, T), S2(T, N), S2(T, A), S2(M, T)>>,
                           <<S2(T, N), S2(N, N), S2(N, A), S2(M, N)>>,
                           <<S2(T, A), S2(N, A), S2(A, A), S2(M, A)>> >>)
        d0 == drag.x[1]  d1 == drag.x[2]  d2 == drag.x[3]
        ma == mom.x[1]   mn == mom.x[2]   mx == mom.x[3]
        ao == Rad(RGet(aero, "alpha"))
        den == ((R2 \otimes La) \oplus (RInt(3) \otimes d0)) \ominus ((R2 \otimes d2) \otimes (La \otimes La))
        kx == ((RInt(4) \oplus ((R2 \otimes d0) \oslash La))
                \oplus ((((RInt(12) \otimes ao) \otimes ao) \ominus RInt(4)) \otimes (d2 \otimes La))) \oslash den
        kz == (((RInt(4) \otimes aL0) \oplus (RInt(4) \otimes d1)) \oplus ((RInt(12) \otimes ao) \otimes (d2 \otimes La))) \oslash den
        cg == CG(D)
    IN [x |-> (long \otimes ((kx \otimes ma) \oplus mn)) \oplus cg[1],
        z |-> cg[3] \ominus (long \otimes ((kz \otimes ma) \oplus mx)),
        ratio |-> RMin(drag.ratio, mom.ratio), La |-> La, den |-> den,
        big |-> RMax(R1, RMax(RAbs(kx \otimes ma) \oplus RAbs(mn), RAbs(kz \otimes ma) \oplus RAbs(mx)))]
CentreClauses(S, i, D, ev) ==
    LET sw == S.events[3]
        cen == Centre(S.planes[1], AeroGiven(S.events[2]), sw.res)
        sure == /\ RQ(1, 1000000) \otimes RQ(1, 100) \prec cen.ratio
                /\ RQ(1, 100) \prec RAbs(cen.La) /\ (RQ(1, 1000) \otimes RAbs(cen.La)) \prec RAbs(cen.den)
        sc == RMax(R1, LongRef(S.planes[1])) \otimes cen.big
        tol == IF HasProps(D) THEN RQ(1, 100000) ELSE RQ(1, 1000000)
        (* a turning airplane turns about its centre of gravity *)
        still == {"roll_rate", "pitch_rate", "yaw_rate"} \cap DOMAIN AeroGiven(ev) = {}
    IN CASE ev.op = "ac" /\ ev.out = "ok" ->
              << C("a point in the symmetry plane", IsSeq(ev.res) /\ Len(ev.res) = 3 /\ ev.res[2] = R0),
                 IF ev.call.m = 1
                 THEN CIf(sure, "the fitted centre", VecClose(ev.res, <<cen.x, R0, cen.z>>, tol, sc))
                 ELSE CIf(sure /\ still, "the same point whatever the centre of gravity", VecClose(ev.res, <<cen.x, R0, cen.z>>, tol, sc)) >>
              \o (IF Saves(ev) THEN << C("the file holds it", HasAll(FileJson(ev), {"x_ac", "z_ac"})
                                          /\ FileJson(ev).x_ac = ev.res[1] /\ FileJson(ev).z_ac = ev.res[3]) >> ELSE << >>)
         [] OTHER -> << Answered(ev) >>

(********************************* P14 ************************************)
WingColumns == << <<"ControlPoint(x)", "control_points", 1>>, <<"ControlPoint(y)", "control_points", 2>>, <<"ControlPoint(z)", "control_points", 3>>,
                  <<"Chord", "chord", 0>>, <<"Twist(deg)", "twist", 0>>, <<"Dihedral(deg)", "dihedral", 0>>, <<"Sweep(deg)", "sweep", 0>>,
                  <<"Area", "area", 0>>, <<"Alpha(deg)", "alpha", 9>>, <<"Force(x)", "forces_xyz", 1>>, <<"Force(y)", "forces_xyz", 2>>,
                  <<"Force(z)", "forces_xyz", 3>>, <<"SectionCL", "section_CL", 0>>, <<"SectionCm", "section_Cm", 0>>,
                  <<"SectionCDParasitic", "section_CD_parasitic", 0>>, <<"SectionAlpha_L0", "section_alpha_L0", 0>>,
                  <<"SectionCL_ref", "section_CL_ref", 0>> >>
PropColumns == << <<"RadialPosition", "radial_position", 0>>, <<"Chord", "chord", 0>>, <<"Pitch(deg)", "pitch", 0>>,
                  <<"AdvangeAngle(deg)", "advance_angle", 0>>, <<"InducedAngle(deg)", "induced_angle", 0>>, <<"Alpha(deg)", "alpha", 0>>,
                  <<"SectionCL", "section_CL", 0>>, <<"SectionCD", "section_CD", 0>>, <<"InducedVelocity,Vi", "Vi", 0>>,
                  <<"Vi(Axial)", "Vi_x", 0>>, <<"Vi(Tangential)", "Vi_t", 0>> >>
Printed == RQ(1, 1000000) \otimes RQ(1, 1000000)
TableIs(sec, title, cols, d) ==
    LET n == Len(d.name)
        Value(c, k) == IF cols[c][3] = 9 THEN Deg(d[cols[c][2]][k])
                       ELSE IF cols[c][3] > 0 THEN d[cols[c][2]][k][cols[c][3]] ELSE d[cols[c][2]][k]
    IN /\ sec.title = title
       /\ sec.columns = <<"Name">> \o [c \in 1..Len(cols) |-> cols[c][1]]
       /\ Len(sec.rows) = n /\ \A k \in 1..n : sec.names[k] = d.name[k] /\ Len(sec.rows[k]) = Len(cols)
       /\ \A k \in 1..n, c \in 1..Len(cols) :
             LET v == Value(c, k) IN IF RFin(v) THEN RClose(v, sec.rows[k][c], Printed, RAbs(v)) ELSE ~RFin(sec.rows[k][c])
TableClauses(D, ev) ==
    LET secs == ev.file.sections
        nw == IF HasWings(D) THEN 1 ELSE 0
        np == IF HasProps(D) THEN 1 ELSE 0
    IN IF ~Has(ev, "file") \/ ~Has(ev.file, "sections") THEN << C("the file holds tables", FALSE) >>
       ELSE << C("one table for the wings, one for the propellers", Len(secs) = nw + np /\ ~Has(ev.file, "stray")),
               CIf(nw = 1, "the wing table holds what was returned",
                   Len(secs) >= 1 /\ TableIs(secs[1], "WingDistributions", WingColumns, ev.res.wing)),
               CIf(np = 1, "the propeller table holds what was returned",
                   Len(secs) >= nw + 1 /\ TableIs(secs[nw + 1], "PropellerDistributions", PropColumns, ev.res.prop)) >>
FileName(S, i) == LET c == S.events[i].call
                  IN "out" \o (IF c.file = "new" THEN ToString(i) ELSE "0") \o "." \o Get(c, "ext", "json")
(* a call that fails may have left no file *)
MayReplace(S, i) == \E j \in 1..(i - 1), k \in 1..20 : k <= Len(S.events[j].newfiles) /\ S.events[j].newfiles[k] = FileName(S, i)
Written(S, i, ev) ==
    IF MayReplace(S, i) THEN ev.newfiles = << >> ELSE ev.newfiles = << FileName(S, i) >>
SameSaved(S, i, D, ev) ==
    LET q == Question(D, ev)
        Js == {j \in 1..(i - 1) : S.events[j].op = ev.op /\ Question(D, S.events[j]) = q}
        j == CHOOSE j \in Js : \A k \in Js : j <= k
        f == S.events[j]
    IN IF Js = {} THEN << >>
       ELSE IF Failed(ev) \/ Failed(f) THEN << C("a file name does not change the outcome", Failed(ev) /\ Failed(f)) >>
       ELSE << C("a file name does not change the answer", Same(ev.res, f.res, SameTol(D))) >>
SavedClauses(S, i, D, ev) ==
    LET j == FileJson(ev)
        ok == ev.out = "ok"
    IN IF ev.op = "new" THEN << Answered(ev) >>
       ELSE << Ends(ev) >>
            \o (IF ~Saves(ev) THEN << C("nothing is written without a name", ev.newfiles = << >>) >>
                ELSE IF ~ok THEN << C("failures are those documented", ev.out = "exc:RuntimeError" /\ ev.op \in {"stall_speed"}) >>
                ELSE << C("the named file is written, and no other", Written(S, i, ev)) >>
                     \o (CASE ev.op = "dist" -> TableClauses(D, ev)
                           [] ev.op = "solve" -> << C("the file holds the returned loads", IsRec(j) /\ Has(j, "total_results")
                                                       /\ Same(ev.res, j.total_results, Exact)) >>
                                                 \o (IF PosedDry(D, ev) THEN FileClauses(D, ev) ELSE << Skip("parts") >>)
                           [] ev.op = "ac" -> << C("the file holds the centre", IsRec(j) /\ DOMAIN j = {"x_ac", "z_ac"}
                                                    /\ Same(<<ev.res[1], ev.res[3]>>, <<j.x_ac, j.z_ac>>, Exact)) >>
                           [] ev.op = "pitch_trim" /\ KindOf(ev.res) = "text" ->
                                << C("the file holds the failure", IsError(j, "untrimmable") \/ IsError(j, "no_elevator")) >>
                           [] OTHER -> << C("the file holds the returned results", Same(ev.res, j, Exact)) >>))
            \o SameSaved(S, i, D, ev)
===============================================================================
