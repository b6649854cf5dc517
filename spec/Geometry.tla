------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* What an airplane description means: defaults of left-out entries, the   *)
(* placement of wing halves, airfoils and control surfaces.                *)
(*                                                                         *)
(* A description is a record; every number in it is a rational <<num,den>>.*)
(* Optional entries are absent fields.                                     *)
(***************************************************************************)
EXTENDS Vec, FiniteSets, TLC

Has(r, f) == f \in DOMAIN r
QV(q) == RQ(q[1], q[2])
Get(r, f, default) == IF Has(r, f) THEN r[f] ELSE default
GetQ(r, f, n, d) == IF Has(r, f) THEN QV(r[f]) ELSE RQ(n, d)
QVec(v) == <<QV(v[1]), QV(v[2]), QV(v[3])>>
GetVec(r, f) == IF Has(r, f) THEN QVec(r[f]) ELSE VZero

(***************************** airfoils ***********************************)
AirfoilNums == <<"alpha_L0", "CL_alpha", "CL_max", "Cm_L0", "Cm_alpha", "CD0", "CD0_L", "CD0_L2">>
DefaultAirfoil == [name |-> "NACA2412",
    alpha_L0 |-> RQ(-369, 10000), CL_alpha |-> RQ(62832, 10000), CL_max |-> RQ(14, 10),
    Cm_L0 |-> RQ(-527, 10000), Cm_alpha |-> RQ(-8, 100), CD0 |-> RQ(55, 10000),
    CD0_L |-> RQ(-45, 10000), CD0_L2 |-> RQ(1, 100)]
(* An airfoil given by name only has the default section's properties. *)
AirfoilOf(a) ==
    IF Has(a, "p")
    THEN [name |-> a.name, alpha_L0 |-> QV(a.p.alpha_L0), CL_alpha |-> QV(a.p.CL_alpha),
          CL_max |-> QV(a.p.CL_max), Cm_L0 |-> QV(a.p.Cm_L0), Cm_alpha |-> QV(a.p.Cm_alpha),
          CD0 |-> QV(a.p.CD0), CD0_L |-> QV(a.p.CD0_L), CD0_L2 |-> QV(a.p.CD0_L2)]
    ELSE [DefaultAirfoil EXCEPT !.name = a.name]
(* The airfoil of one end ("root" or "tip"): the last assignment covering it. *)
RECURSIVE LastAirfoil(_, _, _)
LastAirfoil(as, end, i) ==
    IF i = 0 THEN DefaultAirfoil
    ELSE IF as[i].end \in {end, "both", "unsaid"} THEN AirfoilOf(as[i])
    ELSE LastAirfoil(as, end, i - 1)
EndAirfoil(w, end) == LET as == Get(w, "airfoils", << >>) IN LastAirfoil(as, end, Len(as))

(***************************** placement **********************************)
WingIndex(D, name) == CHOOSE i \in 1..Len(D.wings) : D.wings[i].name = name
Outboard(side) == IF side = "left" THEN RInt(-1) ELSE R1
Semispan(w) == GetQ(w, "semispan", 4, 1)
Sides(w) == LET s == Get(w, "side", "both")
            IN IF s = "both" THEN <<"left", "right">> ELSE <<s>>

RECURSIVE TipPos(_, _, _)
RootPos(D, i, side) ==
    LET w == D.wings[i]
        parent == Get(w, "parent", "")
        base == IF parent = "" THEN GetVec(D, "position") ELSE TipPos(D, WingIndex(D, parent), side)
    IN VAdd(VAdd(GetVec(w, "pos"), <<R0, Outboard(side) \otimes GetQ(w, "yoffset", 0, 1), R0>>), base)
TipPos(D, i, side) ==
    LET w == D.wings[i]
        span == Semispan(w)
        sw == Rad(GetQ(w, "sweep", 0, 1))
        dih == Rad(GetQ(w, "dihedral", 0, 1))
    IN VAdd(RootPos(D, i, side),
            << RNeg(span \otimes RTan(sw)),
               Outboard(side) \otimes (span \otimes RCos(dih)),
               RNeg(span \otimes RSin(dih)) >>)

(*************************** control surfaces *****************************)
NoControl == [start |-> R0, end |-> R1, cstart |-> R0, cend |-> R0, sealed |-> TRUE,
              aileron |-> R0, elevator |-> R0, rudder |-> R0, flap |-> R0]
(* Span fractions and chords from the left end of the half. *)
ControlOf(w, side) ==
    IF ~Has(w, "control") THEN NoControl
    ELSE LET c == w.control
             sr == QV(c.span[1])
             st == QV(c.span[2])
             cr == QV(c.chord[1])
             ct == QV(c.chord[Len(c.chord)])
             anti == IF side = "left" THEN RInt(-1) ELSE R1
             mix(k) == IF Has(c.mix, k) THEN QV(c.mix[k]) ELSE R0
             base == [sealed |-> Get(c, "sealed", TRUE),
                      aileron |-> anti \otimes mix("aileron"), elevator |-> mix("elevator"),
                      rudder |-> anti \otimes mix("rudder"), flap |-> mix("flap")]
         IN IF side = "left"
            THEN base @@ [start |-> R1 \ominus st, end |-> R1 \ominus sr, cstart |-> ct, cend |-> cr]
            ELSE base @@ [start |-> sr, end |-> st, cstart |-> cr, cend |-> ct]

(***************************** wing halves ********************************)
HalfOf(D, i, side) ==
    LET w == D.wings[i]
        root == RootPos(D, i, side)
        tip == TipPos(D, i, side)
        cr == GetQ(w, "root_chord", 1, 1)
        ct == IF Has(w, "tip_chord") THEN QV(w.tip_chord) ELSE cr
        wo == GetQ(w, "washout", 0, 1)
        left == side = "left"
        ar == EndAirfoil(w, "root")
        at == EndAirfoil(w, "tip")
    IN [wing |-> i, name |-> side \o "_" \o w.name, side |-> side,
        n |-> Get(w, "grid", 40), main |-> Get(w, "is_main", TRUE),
        pl |-> IF left THEN tip ELSE root, pr |-> IF left THEN root ELSE tip,
        cl |-> IF left THEN ct ELSE cr, cr |-> IF left THEN cr ELSE ct,
        wl |-> IF left THEN wo ELSE R0, wr |-> IF left THEN R0 ELSE wo,
        al |-> IF left THEN at ELSE ar, ar |-> IF left THEN ar ELSE at,
        mount |-> GetQ(w, "mount_angle", 0, 1), sweep |-> GetQ(w, "sweep", 0, 1),
        dihedral |-> GetQ(w, "dihedral", 0, 1), span |-> Semispan(w),
        control |-> ControlOf(w, side)]
RECURSIVE HalvesFrom(_, _)
HalvesFrom(D, i) ==
    IF i > Len(D.wings) THEN << >>
    ELSE LET ss == Sides(D.wings[i])
         IN [k \in 1..Len(ss) |-> HalfOf(D, i, ss[k])] \o HalvesFrom(D, i + 1)
Halves(D) == Force(HalvesFrom(D, 1))

CG(D) == GetVec(D, "cg")
HasWings(D) == Len(D.wings) > 0
HasProps(D) == Len(D.props) > 0
=============================================================================
