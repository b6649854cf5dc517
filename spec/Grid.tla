-------------------------------- MODULE Grid --------------------------------
(* Sections of the wing halves: where they are and what they carry.        *)
EXTENDS Geometry

(* Spacing of station k - off of n along a half. *)
Station(cosine, n, k, off) ==
    IF cosine
    THEN Half \otimes (R1 \ominus RCos((Pi \oslash RInt(n)) \otimes (RInt(k) \ominus off)))
    ELSE (RInt(k) \ominus off) \oslash RInt(n)

(* Flap effectiveness: thin-airfoil theory with hinge and seal corrections. *)
FlapAngle(cf) == RAcos((R2 \otimes cf) \ominus R1)
FlapEff(cf, sealed) ==
    LET th == FlapAngle(cf)
        eps == R1 \ominus ((th \ominus RSin(th)) \oslash Pi)
        hinge == (RQ(39598, 10000) \otimes RAtan(((cf \oplus RQ(6527, 1000000)) \otimes RQ(892574, 10000))
                                                   \oplus RQ(4898015, 1000000)))
                 \ominus RQ(518786, 100000)
    IN (IF sealed THEN hinge ELSE hinge \otimes RQ(8, 10)) \otimes eps
FlapMoment(cf) ==
    LET th == FlapAngle(cf)
    IN (RSin(R2 \otimes th) \ominus (R2 \otimes RSin(th))) \oslash RInt(4)

Section(h, hi, cosine, k) ==
    LET n == h.n
        s == Station(cosine, n, k, Half)
        s1 == Station(cosine, n, k - 1, R0)
        s2 == Station(cosine, n, k, R0)
        d == VSub(h.pr, h.pl)
        At(t) == VAdd(h.pl, VScale(t, d))
        r1 == At(s1)
        r2 == At(s2)
        c1 == Lerp(h.cl, h.cr, s1)
        c2 == Lerp(h.cl, h.cr, s2)
        dl == VSub(r2, r1)
        tw == h.mount \ominus Lerp(h.wl, h.wr, s)
        st == RSin(Rad(tw))
        ct == RCos(Rad(tw))
        sd == Outboard(h.side) \otimes RSin(Rad(h.dihedral))
        cd == RCos(Rad(h.dihedral))
        un == << RNeg(st), RNeg(sd \otimes ct), RNeg(cd \otimes ct) >>
        ua == << RNeg(ct), sd \otimes st, cd \otimes st >>
        us == Cross(ua, un)
        ctl == h.control
        on == ctl.start \prec s /\ s \prec ctl.end
        cf == ctl.cstart \oplus ((s \ominus ctl.start) \otimes
                ((ctl.cend \ominus ctl.cstart) \oslash (ctl.end \ominus ctl.start)))
        M(f) == IF on THEN ctl[f] ELSE R0
        B(f) == Lerp(h.al[f], h.ar[f], s)
    IN [half |-> hi, name |-> h.name, s |-> s, s1 |-> s1, s2 |-> s2,
        r |-> At(s), r1 |-> r1, r2 |-> r2, dl |-> dl,
        c |-> Lerp(h.cl, h.cr, s), c1 |-> c1, c2 |-> c2,
        dS |-> RCos(Rad(h.sweep)) \otimes Norm(dl) \otimes ((c1 \oplus c2) \otimes Half),
        twist |-> tw, dihedral |-> h.dihedral, sweep |-> h.sweep,
        ua |-> ua, un |-> un, us |-> us,
        ic2 |-> RAbs(Dot(us, dl)) \otimes
                ((((c2 \otimes c2) \oplus (c1 \otimes c2)) \oplus (c1 \otimes c1)) \oslash RInt(3)),
        L |-> h.al, R |-> h.ar,
        CL_alpha |-> B("CL_alpha"), alpha_L0 |-> B("alpha_L0"), CL_max |-> B("CL_max"),
        Cm_alpha |-> B("Cm_alpha"), Cm_L0 |-> B("Cm_L0"),
        CD0 |-> B("CD0"), CD0_L |-> B("CD0_L"), CD0_L2 |-> B("CD0_L2"),
        on |-> on,
        eff |-> IF on THEN FlapEff(cf, ctl.sealed) ELSE R0,
        cmd |-> IF on THEN FlapMoment(cf) ELSE R0,
        aileron |-> M("aileron"), elevator |-> M("elevator"),
        rudder |-> M("rudder"), flap |-> M("flap")]

RECURSIVE SectionsFrom(_, _, _)
SectionsFrom(hs, i, cosine) ==
    IF i > Len(hs) THEN << >>
    ELSE LET F(k) == Section(hs[i], i, cosine, k)
         IN Map(hs[i].n, F) \o SectionsFrom(hs, i + 1, cosine)
Sections(D, cosine) == Force(SectionsFrom(Halves(D), 1, cosine))

(* Planform area of the main wings, and the reference lengths. *)
RefArea(D) ==
    LET hs == Halves(D)
        g == Sections(D, TRUE)
        A(i) == IF hs[g[i].half].main THEN g[i].dS ELSE R0
    IN SumTo(A, Len(g))
RECURSIVE MaxSpan(_, _)
MaxSpan(hs, i) == IF i = 0 THEN R0 ELSE RMax(MaxSpan(hs, i - 1), hs[i].span)
LatRef(D) ==
    IF Has(D, "lat_ref") THEN QV(D.lat_ref)
    ELSE IF Has(D, "long_ref") THEN RefArea(D) \oslash QV(D.long_ref)
    ELSE R2 \otimes MaxSpan(Halves(D), Len(Halves(D)))
LongRef(D) ==
    IF Has(D, "long_ref") THEN QV(D.long_ref)
    ELSE RefArea(D) \oslash LatRef(D)
=============================================================================
