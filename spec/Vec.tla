-------------------------------- MODULE Vec --------------------------------
(* Vectors, sums, linear systems, interpolation and quadrature over reals. *)
EXTENDS Real64

VZero == <<R0, R0, R0>>
VAdd(a, b) == <<a[1] \oplus b[1], a[2] \oplus b[2], a[3] \oplus b[3]>>
VSub(a, b) == <<a[1] \ominus b[1], a[2] \ominus b[2], a[3] \ominus b[3]>>
VScale(k, a) == <<k \otimes a[1], k \otimes a[2], k \otimes a[3]>>
VNeg(a) == <<RNeg(a[1]), RNeg(a[2]), RNeg(a[3])>>
Dot(a, b) == ((a[1] \otimes b[1]) \oplus (a[2] \otimes b[2])) \oplus (a[3] \otimes b[3])
Cross(a, b) == << (a[2] \otimes b[3]) \ominus (a[3] \otimes b[2]),
                  (a[3] \otimes b[1]) \ominus (a[1] \otimes b[3]),
                  (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1]) >>
Norm(a) == RSqrt(Dot(a, a))
Unit(a) == LET m == Norm(a) IN VScale(R1 \oslash m, a)
VFin(a) == RFin(a[1]) /\ RFin(a[2]) /\ RFin(a[3])

Map(n, F(_)) == Force([i \in 1..n |-> F(i)])

RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN R0 ELSE SumTo(F, n - 1) \oplus F(n)
RECURSIVE VSumTo(_, _)
VSumTo(F(_), n) == IF n = 0 THEN VZero ELSE VAdd(VSumTo(F, n - 1), F(n))
SumSeq(s) == LET F(i) == s[i] IN SumTo(F, Len(s))
SumAbs(s) == LET F(i) == RAbs(s[i]) IN SumTo(F, Len(s))
VSumSeq(s) == LET F(i) == s[i] IN VSumTo(F, Len(s))
RECURSIVE MaxAbsTo(_, _)
MaxAbsTo(F(_), n) == IF n = 0 THEN R0 ELSE RMax(MaxAbsTo(F, n - 1), RAbs(F(n)))
MaxAbs(s) == LET F(i) == s[i] IN MaxAbsTo(F, Len(s))
VMaxAbs(v) == RMax(RAbs(v[1]), RMax(RAbs(v[2]), RAbs(v[3])))

(***************************************************************************)
(* Gaussian elimination with partial pivoting of an augmented matrix       *)
(* (a sequence of rows of length n + 1). The answer carries the ratio of   *)
(* the smallest pivot to the largest, a cheap sign of near-singularity.    *)
(***************************************************************************)
RECURSIVE PivotRow(_, _, _, _)
PivotRow(m, k, i, best) ==
    IF i > Len(m) THEN best
    ELSE PivotRow(m, k, i + 1, IF RAbs(m[best][k]) \prec RAbs(m[i][k]) THEN i ELSE best)
RECURSIVE Eliminate(_, _)
Eliminate(m, k) ==
    LET n == Len(m)
    IN IF k > n THEN m
       ELSE LET p == PivotRow(m, k, k + 1, k)
                top == m[p]
                Row(i) == IF i < k THEN m[i]
                          ELSE IF i = k THEN top
                          ELSE LET src == IF i = p THEN m[k] ELSE m[i]
                                   f == src[k] \oslash top[k]
                                   E(j) == IF j <= k THEN R0 ELSE src[j] \ominus (f \otimes top[j])
                               IN Map(n + 1, E)
                next == Map(n, Row)
            IN Eliminate(next, k + 1)
RECURSIVE BackSub(_, _, _)
BackSub(m, k, x) ==
    IF k = 0 THEN x
    ELSE LET n == Len(m)
             T(j) == m[k][k + j] \otimes x[j]
             v == (m[k][n + 1] \ominus SumTo(T, n - k)) \oslash m[k][k]
         IN BackSub(m, k - 1, <<v>> \o x)
LinSolve(m) ==
    LET u == Eliminate(m, 1)
        n == Len(m)
        P(i) == RAbs(u[i][i])
        RECURSIVE MinTo(_)
        MinTo(i) == IF i = 1 THEN P(1) ELSE RMin(MinTo(i - 1), P(i))
    IN [x |-> BackSub(u, n, << >>), ratio |-> MinTo(n) \oslash MaxAbsTo(P, n)]

Lerp(a, b, s) == a \oplus (s \otimes (b \ominus a))

(* Index i with xs[i] <= x < xs[i+1] for increasing xs, clamped to the ends. *)
RECURSIVE Bracket(_, _, _)
Bracket(xs, x, i) == IF i >= Len(xs) - 1 \/ x \prec xs[i + 1] THEN i ELSE Bracket(xs, x, i + 1)
(* Piecewise linear interpolation, constant below and above. *)
InterpFlat(xs, ys, x, below, above) ==
    IF x \prec xs[1] THEN below
    ELSE IF xs[Len(xs)] \prec x THEN above
    ELSE LET i == Bracket(xs, x, 1)
             dx == xs[i + 1] \ominus xs[i]
         IN ys[i] \oplus ((((x \ominus xs[i]) \oslash dx)) \otimes (ys[i + 1] \ominus ys[i]))

(***************************************************************************)
(* Composite Simpson's rule on an evenly spaced table. With an even number *)
(* of points the last interval is integrated with the parabola through the *)
(* last three points (Cartwright's correction).                            *)
(***************************************************************************)
Simpson(y, h) ==
    LET n == Len(y)
        odd == IF n % 2 = 1 THEN n ELSE n - 1
        W(i) == IF i = 1 \/ i = odd THEN R1 ELSE IF i % 2 = 0 THEN RInt(4) ELSE R2
        T(i) == W(i) \otimes y[i]
        main == SumTo(T, odd) \otimes (h \oslash RInt(3))
    IN IF n = 2 THEN (h \otimes Half) \otimes (y[1] \oplus y[2])
       ELSE IF n % 2 = 1 THEN main
       ELSE main \oplus (h \otimes (((RQ(5, 12) \otimes y[n]) \oplus (RQ(2, 3) \otimes y[n - 1]))
                                     \ominus (RQ(1, 12) \otimes y[n - 2])))
=============================================================================
