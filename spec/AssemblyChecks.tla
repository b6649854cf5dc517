---------------------------- MODULE AssemblyChecks ----------------------------
(* Clauses about airplanes built call by call (P25). *)
EXTENDS SurfaceChecks

SectionShown(got, af) ==
    /\ got.name = af.name
    /\ \A f \in {"CL_alpha", "alpha_L0", "CL_max", "Cm_alpha", "Cm_L0"} : RealIs(got[f], af[f], Exact, R1)
    /\ IsSeq(got.CD) /\ Len(got.CD) = 3
    /\ RealIs(got.CD[1], af.CD0, Exact, R1) /\ RealIs(got.CD[2], af.CD0_L, Exact, R1) /\ RealIs(got.CD[3], af.CD0_L2, Exact, R1)
Pair(got, a, b) == IsSeq(got) /\ Len(got) = 2 /\ RealIs(got[1], a, Exact, R1) /\ RealIs(got[2], b, Exact, R1)
Asked0(got, D, f) == IF Has(D, f) THEN RealIs(got, QV(D[f]), Exact, R1) ELSE KindOf(got) = "text"
LookClauses(D, ev) ==
    LET hs == Halves(D)
        n == Len(hs)
        ps == D.props
        np == Len(ps)
        ws == ev.res.wings
        RECURSIVE Total(_)
        Total(k) == IF k = 0 THEN 0 ELSE Total(k - 1) + hs[k].n
        HalfSeen(k, Q(_, _)) == \E j \in 1..Len(ws) : ws[j].name = hs[k].name /\ Q(hs[k], ws[j])
        Shaped(h, w) ==
            LET left == h.side = "left"
            IN /\ w.side = h.side /\ RealIs(w.n, RInt(h.n), Exact, R1) /\ RealIs(w.span, h.span, Exact, R1)
               /\ Pair(w.chords, IF left THEN h.cr ELSE h.cl, IF left THEN h.cl ELSE h.cr)
               /\ RealIs(w.mount, h.mount, Exact, R1) /\ RealIs(w.washout, IF left THEN h.wl ELSE h.wr, Exact, R1)
               /\ RealIs(w.dihedral, h.dihedral, Exact, R1) /\ RealIs(w.sweep, h.sweep, Exact, R1)
        Placed(h, w) == LET sc == RMax(R1, RMax(VMaxAbs(h.pl), VMaxAbs(h.pr)))
                        IN VecClose(w.left, h.pl, Exact, sc) /\ VecClose(w.right, h.pr, Exact, sc)
        Foiled(h, w) == LET left == h.side = "left"
                        IN /\ SectionShown(w.root, IF left THEN h.ar ELSE h.al)
                           /\ SectionShown(w.tip, IF left THEN h.al ELSE h.ar)
        Steered(h, w) == LET c == h.control
                       IN /\ Pair(w.cspan, c.start, c.end) /\ Pair(w.cchord, c.cstart, c.cend)
                          /\ IsSeq(w.mix) /\ Len(w.mix) = 4
                          /\ RealIs(w.mix[1], c.aileron, Exact, R1) /\ RealIs(w.mix[2], c.elevator, Exact, R1)
                          /\ RealIs(w.mix[3], c.rudder, Exact, R1) /\ RealIs(w.mix[4], c.flap, Exact, R1)
                          /\ w.sealed = c.sealed
        AllHalves(Q(_, _)) == \A k \in 1..n : HalfSeen(k, Q)
        PropSeen(p, r) ==
            /\ r.name = p.name
            /\ VecClose(r.pos, PropPos(p), Exact, R1)
            /\ IF Has(p, "orient") THEN Pair(r.orient, QV(p.orient[1]), QV(p.orient[2])) ELSE Pair(r.orient, R0, R0)
            /\ RealIs(r.nodes, RInt(Nodes(p)), Exact, R1) /\ RealIs(r.diameter, Diameter(p), Exact, R1)
            /\ RealIs(r.hub, Hub(p), Exact, R1) /\ RealIs(r.blades, RInt(Blades(p)), Exact, R1)
            /\ RealIs(r.rot, Rotation(p), Exact, R1)
        BladesSeen(p, r) ==
            LET as == Get(p, "airfoils", << >>)
            IN /\ Len(r.airfoils) = Len(as)
               /\ \A a \in 1..Len(as) : \E b \in 1..Len(as) : SectionShown(r.airfoils[b], AirfoilOf(as[a]))
        pr == ev.res.props
    IN << C("every half is there, and no other", Len(ws) = n /\ {ws[j].name : j \in 1..Len(ws)} = {hs[k].name : k \in 1..n}),
          C("as many sections as the halves have", RealIs(ev.res.sections, RInt(Total(n)), Exact, R1)),
          C("halves have the shape last given", AllHalves(Shaped)),
          C("halves are where they were last put", AllHalves(Placed)),
          C("ends have the airfoils last given", AllHalves(Foiled)),
          C("halves have the control surface last given", AllHalves(Steered)),
          C("every propeller is there, and no other", Len(pr) = np /\ {pr[j].name : j \in 1..Len(pr)} = {ps[j].name : j \in 1..np}),
          C("propellers are as last given", \A j \in 1..np : \E i \in 1..Len(pr) : PropSeen(ps[j], pr[i])),
          C("blades have the airfoils last given", \A j \in 1..np : \E i \in 1..Len(pr) : pr[i].name = ps[j].name /\ BladesSeen(ps[j], pr[i])),
          C("the centre of gravity is where it was last put", VecClose(ev.res.cg, CG(D), Exact, R1)),
          C("the airplane is where it was put", VecClose(ev.res.position, GetVec(D, "position"), Exact, R1)),
          C("reference lengths last given", Asked0(ev.res.lat, D, "lat_ref") /\ Asked0(ev.res.long, D, "long_ref")) >>

AssemblyClauses(S, k, ev) ==
    LET op == ev.op
        D == PlaneAt(S, k)
    IN IF ev.out # "ok" THEN << Answered(ev) >>
       ELSE CASE op = "look" -> LookClauses(AirplaneAt(S, ev.call.m, k), ev)
              [] op = "new" -> << C("the centre of gravity is where it was last put", VecClose(ev.res.cg, CG(D), Exact, R1)) >>
                               \o (IF HasWings(D) THEN ReferenceClauses(D, ev) ELSE << >>)
              [] op = "positions" -> PlacementClauses(D, ev)
              [] op = "grid" -> SectionClauses(D, ev) \o AirfoilClauses(D, ev) \o ControlGridClauses(S, D, ev) \o ReferenceClauses(D, ev)
              [] op = "dist" /\ HasProps(D) -> BladeClauses(D, ev) \o (IF HasWings(D) THEN ImmersedClauses(S, k, D, ev) ELSE << >>)
              [] op = "solve" /\ HasProps(D) ->
                    PropLoadClauses(S, k, D, ev, PropLoadNames) \o (IF HasWings(D) THEN ImmersedClauses(S, k, D, ev) ELSE << >>)
              [] op \in {"dist", "solve"} -> LoadsClauses(D, ev, LoadNames)
              [] OTHER -> << Answered(ev) >>
=============================================================================
