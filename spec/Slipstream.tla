----------------------------- MODULE Slipstream -----------------------------
(* The propeller's induced velocity and what the wing's control points see. *)
EXTENDS BladeElement

(* Induced velocity at the blade stations: total, axial and tangential. *)
Induced(p, nds, J, rate, ei) ==
    LET n == Len(nds)
        V(i) == (((rate \otimes R2) \otimes Pi) \otimes nds[i].r) \otimes (RSin(ei[i]) \oslash RCos(EinfOf(J, nds[i])))
        vi == Map(n, V)
        E(i) == ei[i] \oplus EinfOf(J, nds[i])
        X(i) == vi[i] \otimes RCos(E(i))
        T(i) == vi[i] \otimes RSin(E(i))
    IN [vi |-> vi, vx |-> Map(n, X), vt |-> Map(n, T)]

(* Where a point lies: distance behind the disk and from the axis. *)
Place(p, pt) ==
    LET fw == Forward(p)
        rel == VSub(pt, PropPos(p))
        t == Dot(rel, fw)
        off == VSub(rel, VScale(t, fw))
        tan == Cross(fw, off)
        m == Norm(tan)
    IN [behind |-> RNeg(t), dist |-> Norm(off),
        swirl |-> IF R0 \prec m THEN VScale(R1 \oslash m, tan) ELSE VZero]
InTube(p, pl) == /\ R0 \prec pl.behind
                 /\ pl.dist \preceq (Diameter(p) \oslash R2)

(* Radii of the contracting stream tubes at distance s behind the disk. *)
TubeRadii(nds, ind, V, kd) ==
    LET n == Len(nds)
        RECURSIVE To(_)
        To(i) == IF i = 1 THEN << nds[1].r >>
                 ELSE LET prev == To(i - 1)
                          vx2 == ind.vx[i] \oplus ind.vx[i - 1]
                          k == ((R2 \otimes V) \oplus vx2) \oslash ((R2 \otimes V) \oplus (kd \otimes vx2))
                      IN Append(prev, RSqrt(RSq(prev[i - 1]) \oplus
                                            ((RSq(nds[i].r) \ominus RSq(nds[i - 1].r)) \otimes k)))
    IN Force(To(n))
(* Velocity added at a point by one propeller. *)
SlipVelocity(p, nds, ind, V, pt) ==
    LET pl == Place(p, pt)
    IN IF ~InTube(p, pl) THEN VZero
       ELSE LET n == Len(nds)
                R == Diameter(p) \oslash R2
                s == pl.behind
                kd == R1 \oplus (s \oslash RSqrt(RSq(s) \oplus RSq(R)))
                rp == TubeRadii(nds, ind, V, kd)
                core == n \div 10
                Vx(i) == ind.vx[i] \otimes kd
                Vt(i) == IF i > core THEN ((R2 \otimes ind.vt[i]) \otimes nds[i].r) \oslash rp[i]
                         ELSE ((((R2 \otimes ind.vt[core + 1]) \otimes nds[core + 1].r) \oslash rp[core + 1])
                               \oslash rp[core + 1]) \otimes rp[i]
                ax == InterpFlat(rp, Map(n, Vx), pl.dist, R0, R0)
                tg == InterpFlat(rp, Map(n, Vt), pl.dist, R0, R0)
            IN VAdd(VScale(RNeg(ax), Forward(p)), VScale(tg \otimes Rotation(p), pl.swirl))
(* The point is clear of the tube's edges, where the velocity jumps. *)
SlipClear(p, nds, ind, V, pt) ==
    LET pl == Place(p, pt)
        d == Diameter(p)
        tol == RQ(1, 1000000) \otimes d
        Off(a, b) == tol \prec RAbs(a \ominus b)
    IN /\ Off(pl.behind, R0)
       /\ Off(pl.dist, d \oslash R2)
       /\ InTube(p, pl) =>
            LET R == d \oslash R2
                kd == R1 \oplus (pl.behind \oslash RSqrt(RSq(pl.behind) \oplus RSq(R)))
                rp == TubeRadii(nds, ind, V, kd)
            IN \A i \in 1..Len(nds) : /\ RFin(rp[i]) /\ Off(pl.dist, rp[i])
                                       (* a strongly braking propeller has no stream tubes in this model *)
                                       /\ (i > 1 => rp[i-1] \prec rp[i])
=============================================================================
