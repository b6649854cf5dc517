-------------------------------- MODULE Loft --------------------------------
(***************************************************************************)
(* The exported surface: the four-digit profile of every section, placed   *)
(* in the section's own axes with its quarter chord at the control point,  *)
(* and triangles between neighbouring sections of one half or one blade.   *)
(***************************************************************************)
EXTENDS BladeElement

ProfilePoints == 50
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitAt(name, k) == LET c == SubSeq(name, k, k) IN (CHOOSE d \in 1..10 : Digits[d] = c) - 1
IsFourDigit(name) ==
    /\ Len(name) = 8 /\ SubSeq(name, 1, 4) \in {"NACA", "naca"}
    /\ \A k \in 5..8 : \E d \in 1..10 : Digits[d] = SubSeq(name, k, k)
(* Sections of other names are drawn as the default section. *)
DrawnAs(name) == IF IsFourDigit(name) THEN name ELSE "NACA2412"

(* Points <<chordwise from the quarter chord aft, upward>> in chords. *)
Profile(name) ==
    LET d == DrawnAs(name)
        m == RQ(DigitAt(d, 5), 100)
        p == RQ(DigitAt(d, 6), 10)
        t == RQ(10 * DigitAt(d, 7) + DigitAt(d, 8), 100)
        flat == DigitAt(d, 5) = 0 \/ DigitAt(d, 6) = 0
        P(j) ==
          LET th == RNeg(Pi) \oplus (RInt(j - 1) \otimes ((R2 \otimes Pi) \oslash RInt(ProfilePoints - 1)))
              x == Half \otimes (R1 \ominus RCos(th))
              x2 == x \otimes x
              half == (RInt(5) \otimes t) \otimes
                      (((((RQ(2969, 10000) \otimes RSqrt(x)) \ominus (RQ(1260, 10000) \otimes x)) \ominus (RQ(3516, 10000) \otimes x2))
                        \oplus (RQ(2843, 10000) \otimes (x2 \otimes x))) \ominus (RQ(1015, 10000) \otimes (x2 \otimes x2)))
              front == x \prec p
              k == IF front THEN m \oslash (p \otimes p) ELSE m \oslash RSq(R1 \ominus p)
              camber == IF flat THEN R0
                        ELSE IF front THEN k \otimes (((R2 \otimes p) \otimes x) \ominus x2)
                        ELSE k \otimes (((R1 \ominus (R2 \otimes p)) \oplus ((R2 \otimes p) \otimes x)) \ominus x2)
              slope == IF flat THEN R0 ELSE (R2 \otimes k) \otimes (p \ominus x)
              (* the thickness is laid off across the camber line *)
              len == RSqrt(R1 \oplus (slope \otimes slope))
              up == IF th \prec R0 THEN RInt(-1) ELSE R1
          IN << (x \ominus (up \otimes ((half \otimes slope) \oslash len))) \ominus RQ(1, 4),
                camber \oplus (up \otimes (half \oslash len)) >>
    IN Map(ProfilePoints, P)
Morph(a, b, s) == LET B(j) == << Lerp(a[j][1], b[j][1], s), Lerp(a[j][2], b[j][2], s) >> IN Map(Len(a), B)

(* The outline of a section of wing half h. *)
WingOutline(left, right, sec) ==
    LET q == Morph(left, right, sec.s)
        At(j) == VAdd(sec.r, VScale(sec.c, VAdd(VScale(q[j][1], sec.ua), VScale(q[j][2], sec.un))))
    IN Map(ProfilePoints, At)
(* Two triangles between each pair of neighbouring points of neighbouring outlines. *)
Skin(outlines, flipped) ==
    LET np == ProfilePoints - 1
        F(k) == LET i == ((k - 1) \div (2 * np)) + 1
                    j == (((k - 1) \div 2) % np) + 1
                    a == outlines[i][j]  b == outlines[i][j + 1]
                    c == outlines[i + 1][j]  d == outlines[i + 1][j + 1]
                IN IF k % 2 = 1 THEN (IF flipped THEN <<a, c, b>> ELSE <<a, b, c>>)
                   ELSE (IF flipped THEN <<b, c, d>> ELSE <<b, d, c>>)
    IN Map(2 * np * (Len(outlines) - 1), F)

HalfSkin(h, secs) ==
    LET left == Profile(h.al.name)
        right == Profile(h.ar.name)
        O(k) == WingOutline(left, right, secs[k])
        outlines == Map(Len(secs), O)
    IN Skin(outlines, FALSE)

(* A propeller's blades. The leading edge of the blade pointing up (against *)
(* z) faces +y for a propeller turning right-handed about its axis.         *)
BladeAxes(p) ==
    LET o == IF Has(p, "orient") THEN <<QV(p.orient[1]), QV(p.orient[2])>> ELSE <<R0, R0>>
        st == RSin(Rad(o[1]))  ct == RCos(Rad(o[1]))
        sg == RSin(Rad(o[2]))  cg == RCos(Rad(o[2]))
    IN << Forward(p), <<RNeg(sg), cg, R0>>, <<st \otimes cg, st \otimes sg, ct>> >>
BladeProfile(p, sorted, z) ==
    LET as == Get(p, "airfoils", << >>)
        n == Len(sorted)
        shapes == [k \in 1..n |-> Profile(sorted[k].name)]
        xs == [k \in 1..n |-> sorted[k].place]
    IN IF Len(as) = 0 THEN Profile("NACA2412")
       ELSE IF Len(as) = 1 THEN Profile(as[1].name)
       ELSE IF z \preceq xs[1] THEN shapes[1]
       ELSE IF xs[n] \preceq z THEN shapes[n]
       ELSE LET i == Bracket(xs, z, 1)
            IN Morph(shapes[i], shapes[i + 1], (z \ominus xs[i]) \oslash (xs[i + 1] \ominus xs[i]))
BladeSkins(p) ==
    LET sorted == Force(PropAirfoils(p))
        n == Nodes(p)
        d == Diameter(p)
        turn == Rotation(p)
        ax == BladeAxes(p)
        Shape(i) ==
          LET z == Zeta(p, i)
              aL0 == SectionData(p, sorted, "alpha_L0", z)
              b == BladePitch(p, z, aL0) \ominus aL0        \* of the chord line
              c == BladeChord(p, z)
              q == BladeProfile(p, sorted, z)
              sb == RSin(b)  cb == RCos(b)
              (* forward and in the direction of turning *)
              At(j) == << c \otimes ((q[j][2] \otimes cb) \ominus (q[j][1] \otimes sb)),
                          (RNeg(c \otimes ((q[j][1] \otimes cb) \oplus (q[j][2] \otimes sb)))) \otimes turn,
                          (z \otimes d) \otimes Half >>
          IN Map(ProfilePoints, At)
        blade == Map(n, Shape)
        Placed(k) ==
          LET ph == (R2 \otimes Pi) \otimes RQ(k - 1, Blades(p))
              sp == RSin(ph)  cp == RCos(ph)
              (* the blade's span and turning directions *)
              out == VSub(VScale(sp, ax[2]), VScale(cp, ax[3]))
              tan == VAdd(VScale(cp, ax[2]), VScale(sp, ax[3]))
              Section2(i) == LET At(j) == LET v == blade[i][j]
                                          IN VAdd(PropPos(p), VAdd(VScale(v[1], ax[1]), VAdd(VScale(v[2], tan), VScale(v[3], out))))
                             IN Map(ProfilePoints, At)
              outlines == Map(n, Section2)
          IN Skin(outlines, turn = RInt(-1))
        RECURSIVE From(_)
        From(k) == IF k > Blades(p) THEN << >> ELSE Placed(k) \o From(k + 1)
    IN From(1)

WingSkins(D) ==
    LET hs == Halves(D)
        g == Sections(D, TRUE)
        RECURSIVE From(_, _)
        From(i, first) == IF i > Len(hs) THEN << >>
                          ELSE HalfSkin(hs[i], SubSeq(g, first, first + hs[i].n - 1)) \o From(i + 1, first + hs[i].n)
    IN From(1, 1)
Surface(D) ==
    LET RECURSIVE Props(_)
        Props(j) == IF j > Len(D.props) THEN << >> ELSE BladeSkins(D.props[j]) \o Props(j + 1)
    IN Force(WingSkins(D) \o Props(1))

(*************************** comparing surfaces ***************************)
SameVertex(a, b, tol) == \A x \in 1..3 : RAbs(a[x] \ominus b[x]) \preceq tol
SameFace(f, h, tol) == \E r \in 0..2 : \A k \in 1..3 : SameVertex(f[k], h[1 + ((k - 1 + r) % 3)], tol)
=============================================================================
