-------------------------------- MODULE Checks --------------------------------
(***************************************************************************)
(* What every recorded answer must look like. A clause is <<name, verdict>> *)
(* with verdict "ok", "bad" or "skip"; each property has its own clauses.  *)
(***************************************************************************)
EXTENDS LiftingLine, Assembly

C(name, holds) == <<name, IF holds THEN "ok" ELSE "bad">>
Skip(name) == <<name, "skip">>
CIf(cond, name, holds) == IF cond THEN C(name, holds) ELSE Skip(name)

Tiny == RQ(1, 1000000000)             \* relative tolerance of computed loads
Exact == RQ(1, 100000000) \otimes RQ(1, 10000)   \* of geometry
Floor12 == RQ(1, 1000000) \otimes RQ(1, 1000000)

IsRec(v) == KindOf(v) = "record"
IsSeq(v) == KindOf(v) \in {"sequence", "real"}
HasAll(r, fs) == IsRec(r) /\ fs \subseteq DOMAIN r

(* A recorded sequence of reals agrees with the expected ones. *)
SeqClose(got, want, tol) ==
    /\ IsSeq(got) /\ Len(got) = Len(want)
    /\ LET sc == RMax(MaxAbs(want), Floor12)
       IN \A i \in 1..Len(want) : RIsReal(got[i]) /\ RClose(want[i], got[i], tol, sc)
VecClose(got, want, tol, scale) ==
    /\ IsSeq(got) /\ Len(got) = 3
    /\ \A c \in 1..3 : RIsReal(got[c]) /\ RClose(want[c], got[c], tol, scale)
(* A recorded sequence of vectors agrees with the expected ones. *)
VecsClose(got, want, tol) ==
    /\ IsSeq(got) /\ Len(got) = Len(want)
    /\ LET F(i) == VMaxAbs(want[i])
           sc == RMax(MaxAbsTo(F, Len(want)), Floor12)
       IN \A i \in 1..Len(want) : VecClose(got[i], want[i], tol, sc)
RealIs(got, want, tol, scale) == RIsReal(got) /\ RClose(want, got, tol, scale)

Args(ev, f) == Get(ev.args, f, << >>)
HasArg(ev, f) == Has(ev.args, f)
Call(ev, f, default) == Get(ev.call, f, default)

(* The airplane that the construction calls about it, up to event i, add up to. *)
AirplaneAt(S, m, i) ==
    LET Q(e) == e.op \in {"airplane", "step"} /\ e.call.m = m
        steps == SelectSeq(SubSeq(S.events, 1, i), Q)
    IN Assembled([j \in 1..Len(steps) |-> [op |-> steps[j].op] @@ steps[j].call], Len(steps))
(* The model an event is about: its airplane. *)
RECURSIVE ModelPlane(_, _, _)
ModelPlane(S, m, i) ==
    LET e == S.events[i]
    IN IF e.op = "new" /\ e.call.m = m
       THEN CASE Has(e.call, "of") -> ModelPlane(S, e.call.of, i - 1)
              [] Has(e.call, "built") -> AirplaneAt(S, e.call.built, i)
              [] OTHER -> S.planes[e.call.plane]
       ELSE ModelPlane(S, m, i - 1)
PlaneAt(S, i) == ModelPlane(S, S.events[i].call.m, i)

(***************************** P01: placement *****************************)
PlacementClauses(D, ev) ==
    LET hs == Halves(D)
        n == Len(hs)
        Good(k) == LET h == hs[k]
                       sc == RMax(R1, RMax(VMaxAbs(h.pl), VMaxAbs(h.pr)))
                   IN \E j \in 1..Len(ev.res) :
                        /\ ev.res[j].name = h.name
                        /\ VecClose(ev.res[j].left, h.pl, Exact, sc)
                        /\ VecClose(ev.res[j].right, h.pr, Exact, sc)
        Same(k) == \E j \in 1..Len(ev.res) :
                        /\ ev.res[j].name = hs[k].name /\ ev.res[j].side = hs[k].side
                        /\ RealIs(ev.res[j].n, RInt(hs[k].n), Exact, R1)
                        /\ RealIs(ev.res[j].span, hs[k].span, Exact, R1)
    IN << C("every half is there, and no other", Len(ev.res) = n /\ {ev.res[j].name : j \in 1..n} = {hs[k].name : k \in 1..n}),
          C("tips are where the description puts them", \A k \in 1..n : Good(k)),
          C("side, sections and span of the halves", \A k \in 1..n : Same(k)) >>

(***************************** P02: sections ******************************)
GridReals == <<"s", "c", "c1", "c2", "dS", "twist", "dihedral", "sweep", "ic2">>
GridVecs == <<"r", "r1", "r2", "ua", "un", "us">>
AirfoilReals == <<"CL_alpha", "alpha_L0", "CL_max", "Cm_alpha", "Cm_L0">>
EndReals == <<"CL_alpha", "alpha_L0", "Cm_alpha", "Cm_L0", "CD0", "CD0_L", "CD0_L2">>
MixReals == <<"aileron", "elevator", "rudder", "flap">>
SpacingOf(ev) == Call(ev, "cosine", TRUE)
Of(g, f) == LET F(i) == g[i][f] IN Map(Len(g), F)
Names(g) == [i \in 1..Len(g) |-> g[i].name]
SectionClauses(D, ev) ==
    LET g == Sections(D, SpacingOf(ev))
        n == Len(g)
        r1 == ev.res.r1
        r2 == ev.res.r2
    IN << C("sections in order of the halves", IsSeq(ev.res.name) /\ Len(ev.res.name) = n
                                                /\ \A i \in 1..n : ev.res.name[i] = g[i].name) >>
       \o [k \in 1..Len(GridReals) |-> C("section " \o GridReals[k], SeqClose(ev.res[GridReals[k]], Of(g, GridReals[k]), Tiny))]
       \o [k \in 1..Len(GridVecs) |-> C("section " \o GridVecs[k], VecsClose(ev.res[GridVecs[k]], Of(g, GridVecs[k]), Tiny))]
       \o << C("neighbours meet", \A i \in 1..(n - 1) :
                   g[i].half = g[i + 1].half => VecClose(r1[i + 1], r2[i], Exact, RMax(R1, VMaxAbs(r2[i])))),
             C("ends cover the half", \A i \in 1..n : LET h == Halves(D)[g[i].half] IN
                   /\ (i = 1 \/ g[i - 1].half # g[i].half) => VecClose(r1[i], h.pl, Exact, RMax(R1, VMaxAbs(h.pl)))
                   /\ (i = n \/ g[i + 1].half # g[i].half) => VecClose(r2[i], h.pr, Exact, RMax(R1, VMaxAbs(h.pr)))) >>

(***************************** P03: airfoils ******************************)
AirfoilClauses(D, ev) ==
    LET g == Sections(D, SpacingOf(ev))
        End(side, f) == LET F(i) == g[i][side][f] IN Map(Len(g), F)
    IN [k \in 1..Len(AirfoilReals) |-> C("blended " \o AirfoilReals[k], SeqClose(ev.res[AirfoilReals[k]], Of(g, AirfoilReals[k]), Tiny))]
       \o [k \in 1..Len(EndReals) |-> C("left end " \o EndReals[k], SeqClose(ev.res.L[EndReals[k]], End("L", EndReals[k]), Tiny))]
       \o [k \in 1..Len(EndReals) |-> C("right end " \o EndReals[k], SeqClose(ev.res.R[EndReals[k]], End("R", EndReals[k]), Tiny))]

(***************************** P04: controls ******************************)
(* Unless a surface's end falls on a control point, up to rounding. *)
OffEdges(D, g) ==
    LET hs == Halves(D)
        tol == RQ(1, 1000000000)
    IN \A i \in 1..Len(g) :
        LET c == hs[g[i].half].control
        IN tol \prec RAbs(g[i].s \ominus c.start) /\ tol \prec RAbs(g[i].s \ominus c.end)
ControlGridClauses(S, D, ev) ==
    LET g == Sections(D, SpacingOf(ev))
        sure == S.kind = "control_edges" \/ OffEdges(D, g)
    IN << CIf(sure, "flap effectiveness", SeqClose(ev.res.eff, Of(g, "eff"), Tiny)),
          CIf(sure, "flap moment slope", SeqClose(ev.res.cmd, Of(g, "cmd"), Tiny)) >>
       \o [k \in 1..4 |-> CIf(sure, MixReals[k] \o " mixing", SeqClose(ev.res[MixReals[k]], Of(g, MixReals[k]), Tiny))]

(************************* P05, P22: wing loads ***************************)
DefaultAero == [V_mag |-> RInt(10), rho |-> RQ(23769, 10000000), alpha |-> R0]
(* The flow a call is about. *)
EventFlow(D, g, ev) ==
    IF ev.op = "llsolve"
    THEN IF HasArg(ev, "aero") THEN Flow(D, g, ev.args.aero) ELSE DefaultFlow(g)
    ELSE Flow(D, g, IF HasArg(ev, "aero") THEN ev.args.aero ELSE DefaultAero)
WindNames == {"FL", "FD", "FS"}
BodyNames == {"FX", "FY", "FZ"}
MomentNames == {"MX", "MY", "MZ"}
Forces == WindNames \cup BodyNames
LoadScale(sol, k) == IF k \in MomentNames THEN sol.mscale ELSE sol.fscale
LoadsAre(got, want, sol, names, tol) ==
    /\ HasAll(got, names)
    /\ \A k \in names : RealIs(got[k], want[k], tol, LoadScale(sol, k))
LoadsClauses(D, ev, names) ==
    LET cosine == IF ev.op = "llsolve" THEN SpacingOf(ev) ELSE TRUE
        g == Sections(D, cosine)
        flow == EventFlow(D, g, ev)
        sol == SolveLL(D, g, flow, Args(ev, "ctl"))
        posed == OffEdges(D, g) /\ WellPosed(g, flow, sol)
        w == ev.res.wing
        n == Len(g)
        Deg2(i) == sol.alpha[i]
        q(i) == (Half \otimes flow.rho[i]) \otimes Dot(flow.v[i], flow.v[i])
        Cdl(i) == sol.cd[i]
    IN CASE ~posed -> << Skip("loads") >>
         [] ev.op = "llsolve" ->
              << C("inviscid loads", Has(ev.res, "inviscid") /\ LoadsAre(ev.res.inviscid, sol.inviscid, sol, names, Tiny)),
                 C("viscous loads", Has(ev.res, "viscous") /\ LoadsAre(ev.res.viscous, sol.viscous, sol, names, Tiny)),
                 C("total loads", Has(ev.res, "total") /\ LoadsAre(ev.res.total, sol.total, sol, names, Tiny)) >>
         [] ev.op = "solve" ->
              << C("total loads", LoadsAre(ev.res, sol.total, sol, names, Tiny)) >>
         [] ev.op = "dist" ->
              LET F(i) == sol.cl[i] ML(i) == RAbs(sol.cl[i]) \oplus R1
              IN << C("section angle of attack", SeqClose(w.alpha, sol.alpha, Tiny)),
                    C("section lift", IsSeq(w.section_CL) /\ Len(w.section_CL) = n
                                       /\ \A i \in 1..n : RealIs(w.section_CL[i], sol.cl[i], Tiny, R1)),
                    C("section moment", IsSeq(w.section_Cm) /\ Len(w.section_Cm) = n
                                       /\ \A i \in 1..n : RealIs(w.section_Cm[i], sol.cm[i], Tiny, R1)),
                    C("section drag", IsSeq(w.section_CD_parasitic) /\ Len(w.section_CD_parasitic) = n
                                       /\ \A i \in 1..n : RealIs(w.section_CD_parasitic[i], sol.cd[i], Tiny, R1)),
                    C("section forces", IsSeq(w.forces_xyz) /\ Len(w.forces_xyz) = n
                                       /\ \A i \in 1..n : VecClose(w.forces_xyz[i], sol.force[i], Tiny, sol.fscale)) >>
AlphaL0s(D, ev) ==
    LET g == Sections(D, TRUE) IN C("reported zero-lift angles", SeqClose(ev.res.wing.section_alpha_L0, Of(g, "alpha_L0"), Tiny))

(************************** P23: references *******************************)
ReferenceClauses(D, ev) ==
    LET a == RefArea(D)
    IN IF ev.op = "new"
       THEN << C("reference area", RealIs(ev.res.area, a, Tiny, a)),
               C("lateral length", RealIs(ev.res.lat, LatRef(D), Tiny, R1)),
               C("longitudinal length", RealIs(ev.res.long, LongRef(D), Tiny, R1)) >>
       ELSE << C("reference area of the grid", RealIs(ev.res.area, a, Tiny, a)) >>

Answered(ev) == C("answers", ev.out = "ok")
=============================================================================
