------------------------------ MODULE RelChecks ------------------------------
(* Several calls seen together: views of one solution, transformed airplanes, *)
(* left-out entries, files and code, rejected input.                          *)
EXTENDS SessionChecks

Empty(x) == DOMAIN x = {}
Parts == {"wing_results", "prop_results", "total_results"}
WingParts == {"inviscid", "viscous", "total"}

(********************************* P06 ************************************)
(* The file of the solve that the other views are compared with, if there is one. *)
FileMate(S, i) ==
    LET e == S.events[i]
        Js == {j \in 1..Len(S.events) :
                 LET f == S.events[j]
                 IN /\ f.op = "solve" /\ f.out = "ok" /\ Has(f, "file") /\ f.call.m = e.call.m
                    /\ SameField(f.args, e.args, "aero") /\ SameField(f.args, e.args, "prop") /\ SameField(f.args, e.args, "ctl")}
    IN IF Js = {} THEN 0 ELSE CHOOSE j \in Js : \A k \in Js : j <= k
PropOnlyMate(S, i) ==
    LET e == S.events[i]
        Js == {j \in 1..Len(S.events) :
                 LET f == S.events[j]
                 IN /\ f.op = "solve" /\ f.out = "ok" /\ Has(f, "file") /\ f.call.m = e.call.m
                    /\ SameField(f.args, e.args, "aero") /\ SameField(f.args, e.args, "prop")}
    IN IF Js = {} THEN 0 ELSE CHOOSE j \in Js : \A k \in Js : j <= k
ForceSize(l) == RMax(VMaxAbs(<<l.FX, l.FY, l.FZ>>), VMaxAbs(<<l.FL, l.FD, l.FS>>))
MomentSize(l) == VMaxAbs(<<l.MX, l.MY, l.MZ>>)
Sizes(ls) ==
    LET F(i) == ForceSize(ls[i])  M(i) == MomentSize(ls[i])
    IN [f |-> RMax(Floor12, SumTo(F, Len(ls))), m |-> RMax(Floor12, SumTo(M, Len(ls)))]
SizeFor(sz, k) == IF k \in MomentNames \cup {"Torque"} THEN sz.m ELSE sz.f
LoadsEqual(a, b, names, sz, tol) ==
    /\ HasAll(a, names)    \* b is the expected one
    /\ \A k \in names : RIsReal(a[k]) /\ RIsReal(b[k]) /\ RFin(a[k]) /\ RClose(b[k], a[k], tol, SizeFor(sz, k))
IsLoad(l) == HasAll(l, LoadNames) /\ \A k \in LoadNames : RIsReal(l[k]) /\ RFin(l[k])
(* Body-axis and wind-axis forces are one vector. *)
OneVector(l, u) ==
    LET w == InWind(<<l.FX, l.FY, l.FZ>>, u)
        sz == RMax(Floor12, ForceSize(l))
    IN \A k \in WindNames : RClose(w[k], l[k], Tiny, sz)
NoLoad == [k \in LoadNames |-> R0]
(* A solve's file: the parts add up, and their sum is what the call returned. *)
FileClauses(D, ev) ==
    LET j == ev.file.json
        u == AeroDir(ev)
        shaped == /\ Has(ev.file, "json") /\ HasAll(j, Parts)
                  /\ IF HasWings(D) THEN HasAll(j.wing_results, WingParts) /\ \A k \in WingParts : IsLoad(j.wing_results[k])
                     ELSE Empty(j.wing_results)
                  /\ IF HasProps(D) THEN Has(j.prop_results, "total") /\ IsLoad(j.prop_results.total)
                     ELSE Empty(j.prop_results)
                  /\ IsLoad(j.total_results) /\ IsLoad(ev.res)
        w == IF HasWings(D) THEN j.wing_results.total ELSE NoLoad
        p == IF HasProps(D) THEN j.prop_results.total ELSE NoLoad
        inv == j.wing_results.inviscid
        vis == j.wing_results.viscous
    IN IF ~shaped THEN << C("the file holds all parts", FALSE) >>
       ELSE << C("wings and propellers add up to the total", LoadsEqual(j.total_results, LoadAdd(w, p), LoadNames, Sizes(<<w, p>>), Tiny)),
               C("the file's total is what was returned", LoadsEqual(ev.res, j.total_results, LoadNames, Sizes(<<w, p>>), Exact)),
               C("forces in both frames are one vector", \A l \in {w, p, j.total_results} : OneVector(l, u)) >>
            \o (IF ~HasWings(D) THEN << >>
                ELSE << C("inviscid and viscous loads add up", LoadsEqual(w, LoadAdd(inv, vis), LoadNames, Sizes(<<inv, vis>>), Tiny)),
                        C("parts in both frames are one vector", OneVector(inv, u) /\ OneVector(vis, u)),
                        CIf((Floor12 \otimes ForceSize(w)) \prec RAbs(w.FD), "lift over drag",
                            Has(w, "L/D") /\ RealIs(w["L/D"], w.FL \oslash w.FD, Tiny, Floor12)) >>)
SumOfForces(fs, want) ==
    LET F(i) == fs[i]  M(i) == Norm(fs[i])
        n == Len(fs)
        sum == VSumTo(F, n)
        sz == RMax(Floor12, SumTo(M, n))
    IN RClose(sum[1], want.FX, Tiny, sz) /\ RClose(sum[2], want.FY, Tiny, sz) /\ RClose(sum[3], want.FZ, Tiny, sz)
(* The lifting line has a solution, up to rounding, in the flow the event is about. *)
PosedAt(S, i, D, ev) ==
    \/ ~HasWings(D)
    \/ LET g == Sections(D, TRUE)
           m == MateOf(S, IF ev.op = "dist" THEN 2 ELSE i)
           pd == S.events[m].res.prop
           slip == HasProps(D) /\ ev.op # "llsolve"
           sf == IF slip THEN SlipFlow(D, g, ev, pd) ELSE [flow |-> EventFlow(D, g, ev), clear |-> TRUE]
           sol == SolveLL(D, g, sf.flow, Args(ev, "ctl"))
       IN IF slip /\ (m = 0 \/ ~WellShaped(D, pd)) THEN TRUE ELSE WellPosed(g, sf.flow, sol)
ViewClauses(S, i, D, ev) ==
    CASE ev.op \in {"solve", "dist", "llsolve"} /\ ~PosedAt(S, i, D, ev) -> << Skip("views") >>
      [] ev.op = "solve" ->
           LET f == FileMate(S, i)
           IN (IF Has(ev, "file") THEN FileClauses(D, ev) ELSE << >>)
              \o (IF ~Has(ev, "file") /\ f > 0
                  THEN << C("the same without a file", LoadsEqual(ev.res, S.events[f].res, LoadNames, Sizes(<<S.events[f].res>>), SameTol(D))) >>
                  ELSE << >>)
      [] ev.op = "dist" ->
           LET f == FileMate(S, i)
               j == S.events[f].file.json
               wd == ev.res.wing
               pd == ev.res.prop
               n == Len(wd.name)
               long == LongRef(D)
           IN (IF ~HasWings(D) THEN << C("no wings, no sections", Empty(wd)) >>
               ELSE IF ~HasAll(wd, {"name", "forces_xyz", "section_CL", "chord", "section_CL_ref"}) THEN << C("sections", FALSE) >>
               ELSE << C("lengths", \A k \in {"forces_xyz", "section_CL", "chord", "section_CL_ref"} : Len(wd[k]) = n),
                       CIf(f > 0, "section forces add up to the inviscid total", SumOfForces(wd.forces_xyz, j.wing_results.inviscid)),
                       C("lift per reference length", \A k \in 1..n :
                            RealIs(wd.section_CL_ref[k], (wd.section_CL[k] \otimes wd.chord[k]) \oslash long, Tiny,
                                   RAbs(wd.chord[k]) \oslash long)) >>)
              \o (IF ~HasProps(D) THEN << C("no propellers, no nodes", Empty(pd)) >>
                  ELSE IF ~WellShaped(D, pd) THEN << C("all nodes of all propellers are listed", FALSE) >>
                  ELSE << C("induced velocity and its parts", \A k \in 1..AllNodes(D) :
                            LET x == pd.Vi_x[k]  t == pd.Vi_t[k]
                            IN RealIs(RAbs(pd.Vi[k]), RSqrt(RSq(x) \oplus RSq(t)), Tiny, Floor12)) >>)
      [] ev.op = "llsolve" ->
           LET f == FileMate(S, i)
               w == S.events[f].file.json.wing_results
           IN IF f = 0 THEN << >>
              ELSE << C("the wing solver's parts are those in the file",
                        /\ HasAll(ev.res, WingParts) /\ HasAll(w, WingParts)
                        /\ \A k \in WingParts : IsLoad(ev.res[k]) /\
                              LoadsEqual(ev.res[k], w[k], LoadNames, Sizes(<<w.inviscid, w.viscous>>), Tiny)) >>
      [] ev.op = "propsolve" ->
           LET f == PropOnlyMate(S, i)
               p == S.events[f].file.json.prop_results.total
           IN IF f = 0 THEN << >>
              ELSE << C("the propeller solver's total is that in the file",
                        LoadsEqual(ev.res.total, p, PropLoadNames, Sizes(<<p>>), SameTol(D))) >>
      [] OTHER -> << >>

(********************************* P07 ************************************)
Mirrored == {"FY", "FS", "MX", "MZ"}
QK(ev) == QV(ev.call.k)
(* What the second airplane's loads must be, given the first one's. *)
Transformed(kind, l, ev) ==
    LET k == QK(ev)
        k2 == k \otimes k
        t == QVec(ev.call.t)
        arm == Cross(t, <<l.FX, l.FY, l.FZ>>)
        M == VSub(<<l.MX, l.MY, l.MZ>>, arm)
    IN CASE kind = "mirror" -> [f \in LoadNames |-> IF f \in Mirrored THEN RNeg(l[f]) ELSE l[f]]
         [] kind = "density" -> [f \in LoadNames |-> k \otimes l[f]]
         [] kind = "speed" -> [f \in LoadNames |-> k2 \otimes l[f]]
         [] kind = "size" -> [f \in LoadNames |-> IF f \in MomentNames THEN (k2 \otimes k) \otimes l[f] ELSE k2 \otimes l[f]]
         [] kind = "cgmove" -> [l EXCEPT !.MX = M[1], !.MY = M[2], !.MZ = M[3]]
         [] OTHER -> l
Grows(kind, ev) == LET k == QK(ev) k2 == k \otimes k
                   IN CASE kind = "density" -> <<k, k>> [] kind = "speed" -> <<k2, k2>> [] kind = "size" -> <<k2, k2 \otimes k>> [] OTHER -> <<R1, R1>>
TransformClauses(S, i) ==
    LET ev == S.events[i]
        D == PlaneAt(S, i)
        kind == S.kind
    IN IF ~(ev.op = "solve" /\ Has(ev.call, "k")) THEN << >>
       ELSE LET one == S.events[3]
                seen == S.events[2]
                D1 == S.planes[1]
                g == Sections(D1, TRUE)
                pd == seen.res.prop
                sf == IF HasProps(D1) THEN SlipFlow(D1, g, one, pd) ELSE [flow |-> EventFlow(D1, g, one), clear |-> TRUE]
                sol == SolveLL(D1, g, sf.flow, Args(one, "ctl"))
                posed == HasWings(D1) => sf.clear /\ OffEdges(D1, g) /\ WellPosed(g, sf.flow, sol)
                pl == IF HasProps(D1) THEN AllPropLoads(D1, one, pd) ELSE [fscale |-> R0, mscale |-> R0]
                wf == IF HasWings(D1) THEN sol.fscale ELSE R0
                wm == IF HasWings(D1) THEN sol.mscale ELSE R0
                gr == Grows(kind, ev)
                t == QVec(ev.call.t)
                f0 == wf \oplus pl.fscale
                sc == [f |-> gr[1] \otimes f0, m |-> gr[2] \otimes ((wm \oplus pl.mscale) \oplus (Norm(t) \otimes f0))]
                tol == IF HasProps(D1) THEN RQ(1, 10000000) ELSE Tiny
            IN IF one.out # "ok" \/ seen.out # "ok" THEN << C("the first airplane is solved", FALSE) >>
               ELSE IF HasProps(D1) /\ ~WellShaped(D1, pd) THEN << C("all nodes of all propellers are listed", FALSE) >>
               ELSE IF ~posed THEN << Skip("transformed loads") >>
               ELSE << C("transformed loads (" \o kind \o ")",
                         IsLoad(one.res) /\ IsLoad(ev.res) /\ LoadsEqual(ev.res, Transformed(kind, one.res, ev), LoadNames, sc, tol)) >>

(********************************* P10 ************************************)
DefaultClauses(S, i) ==
    << Ends(S.events[i]) >>
    \o (IF Asks(S, i) THEN AskedBefore(S, i) ELSE << >>)
    \o (IF S.events[i].call.m = 2 /\ Asks(S, i) THEN << C("asks what was asked with entries left out", FirstAsked(S, i) > 0) >> ELSE << >>)

(********************************* P18 ************************************)
NoUnits(D) == [f \in (DOMAIN D) \ {"units"} |-> D[f]]
UnitsOf(D) == IF ~Has(D, "units") THEN "none" ELSE IF D.units \in {"SI", "si"} THEN "SI" ELSE "English"
FirstAlike(S, i) ==
    LET q == Question(NoUnits(PlaneAt(S, i)), S.events[i])
        Js == {j \in 1..(i - 1) : S.events[j].op = S.events[i].op /\ Asks(S, j)
                                    /\ Question(NoUnits(PlaneAt(S, j)), S.events[j]) = q}
    IN IF Js = {} THEN 0 ELSE CHOOSE j \in Js : \A k \in Js : j <= k
LessUnits(r) == [f \in (DOMAIN r) \ {"units"} |-> r[f]]
FileCodeClauses(S, i) ==
    LET ev == S.events[i]
        j == FirstAlike(S, i)
        D == PlaneAt(S, i)
        first == S.events[j]
        tol == SameTol(D)
        norm(u) == IF u \in {"English", "english"} THEN "English" ELSE IF u \in {"SI", "si"} THEN "SI" ELSE "none"
    IN << Answered(ev) >>
       \o (IF ev.op = "new" /\ ev.out = "ok" /\ Has(D, "units") THEN << C("the units are the file's", norm(ev.res.units) = UnitsOf(D)) >> ELSE << >>)
       \o (IF j = 0 \/ ev.out # "ok" \/ first.out # "ok" THEN << >>
           ELSE IF ev.op = "new" THEN << C("the same airplane", Same(LessUnits(ev.res), LessUnits(first.res), tol)) >>
           ELSE IF ev.op = "stl" THEN << C("the same surface", ev.stl.count = first.stl.count /\ ev.stl.size = first.stl.size) >>
           ELSE << C("the same answer", Same(ev.res, first.res, tol)) >>)

(********************************* P21 ************************************)
InvalidClauses(S, i) ==
    LET ev == S.events[i]
    IN IF Has(ev.call, "invalid")
       THEN << Ends(ev), C("an error is raised", ev.out \notin {"ok", "timeout"}) >>
       ELSE << Ends(ev), C("valid calls are answered", ev.out = "ok" \/ ev.op = "target_lift") >>
            \o (IF Asks(S, i) THEN AskedBefore(S, i) ELSE << >>)
=============================================================================
