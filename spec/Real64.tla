------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* The real numbers of this specification: IEEE-754 doubles, represented   *)
(* as <<hi, lo>>, the two 32-bit halves of the bit pattern. The operators  *)
(* in the first part are primitives: their TLA+ definitions only state     *)
(* that a value exists, and TLC evaluates them with the Java overrides in  *)
(* /verif/java. Everything else in the specification is defined over them. *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL Word == -2147483647..2147483647
LOCAL Some == CHOOSE x \in Word \X Word : TRUE

RAdd(a, b) == Some     RSub(a, b) == Some     RMul(a, b) == Some
RDiv(a, b) == Some     RNeg(a) == Some        RAbs(a) == Some
RSqrt(a) == Some       RSin(a) == Some        RCos(a) == Some
RTan(a) == Some        RAcos(a) == Some       RAtan(a) == Some
RAtan2(a, b) == Some   RExp(a) == Some        RLog(a) == Some
RPow(a, b) == Some     RTanh(a) == Some
RInt(n) == Some                     \* the integer n
RQ(n, d) == Some                    \* the quotient n/d
RF32(a) == Some                     \* a rounded to single precision
RLt(a, b) == CHOOSE x \in BOOLEAN : TRUE
RLe(a, b) == CHOOSE x \in BOOLEAN : TRUE
RFin(a) == CHOOSE x \in BOOLEAN : TRUE   \* neither infinite nor NaN
RFloor(a) == CHOOSE x \in Int : TRUE
RStr(a) == CHOOSE x \in STRING : TRUE
Force(v) == v                       \* the identity (evaluates eagerly)
Mix(a, b) == CHOOSE x \in 0..2147483647 : TRUE  \* a fixed hash of two integers

a \oplus b == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)

R0 == RInt(0)      R1 == RInt(1)      R2 == RInt(2)
Half == RQ(1, 2)   Pi == RAcos(RInt(-1))
Rad(deg) == (deg \otimes Pi) \oslash RInt(180)
Deg(rad) == (rad \otimes RInt(180)) \oslash Pi
RMax(a, b) == IF a \prec b THEN b ELSE a
RMin(a, b) == IF b \prec a THEN b ELSE a
RSq(a) == a \otimes a
RSign(a) == IF a \prec R0 THEN RInt(-1) ELSE IF R0 \prec a THEN R1 ELSE R0
RSgn(s) == RInt(s)
RIsReal(v) == CHOOSE x \in BOOLEAN : TRUE  \* a pair of words (overridden)
KindOf(v) == CHOOSE x \in {"text", "truth", "integer", "record", "real", "sequence"} : TRUE

(* |a - b| <= tol * max(scale, |a|), with NaN never close to anything.     *)
RClose(a, b, tol, scale) ==
    /\ RFin(a) /\ RFin(b)
    /\ RAbs(a \ominus b) \preceq (tol \otimes RMax(scale, RAbs(a)))
=============================================================================
