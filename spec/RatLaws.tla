------------------------------ MODULE RatLaws ------------------------------
(* Cross-check of the Java evaluation of module Rat against TLC's own      *)
(* integer arithmetic, on every quadruple of small numerators and          *)
(* denominators, and of the approximations against their defining          *)
(* equations.                                                              *)
EXTENDS RatMat, TLC
CONSTANTS K
VARIABLES a, b, c, d
vars == <<a, b, c, d>>
Init == /\ a \in -K..K /\ c \in -K..K /\ b \in (1..K) /\ d \in (1..K)
Next == UNCHANGED vars
x == RDiv(a, b)
y == RDiv(c, d)
Small == "1/10000000000000000000000000000000000000000"
Laws ==
  /\ REq(x \oplus y, RDiv(a*d + c*b, b*d))
  /\ REq(x \ominus y, RDiv(a*d - c*b, b*d))
  /\ REq(x \otimes y, RDiv(a*c, b*d))
  /\ (c # 0 => REq(x \oslash y, RDiv(a*d, b*c)))
  /\ (x \prec y) = (a*d < c*b)
  /\ (x \preceq y) = (a*d <= c*b)
  /\ RFloor(x) = (a \div b)
  /\ RFits(RPow(2, a), 1) /\ (RFits(a, 2) = (a \in {0,1,2,3,4,6,8,12,16,-1,-2,-3,-4,-6,-8,-12,-16})) /\ ~RFits(RAdd(a, "1/3"), 60)
  /\ REq(RPow(x, 3), RDiv(a*a*a, b*b*b))
  /\ REq(RParse(RStr(x)), x)
  /\ REq(RDot(<<x, y>>, <<y, 2>>), (x \otimes y) \oplus (y \otimes 2))
  /\ REq(RSum(<<x, y, 1>>), (x \oplus y) \oplus 1)
  /\ (a >= 0 => Close(RSq(RSqrt(x)), x, Small, RMax(1, x)))
  /\ Close(RExp(x) \otimes RExp(y), RExp(x \oplus y), Small, RExp(x \oplus y))
  /\ Close(RLn(RExp(x)), x, Small, 1)
  /\ (a > 0 => Close(RExp(RLn(x)), x, Small, 1))
  /\ Close(RCos(x \oplus y) \oplus RCos(x \ominus y), 2 \otimes RCos(x) \otimes RCos(y), Small, 1)
\* the Java eliminations against the definitions
Mx == <<<<RAdd(RSq(x), 1), x, y>>, <<x, 3, a>>, <<y, a, RAdd(d, 4)>>>>
Vx == <<x, RSub(y, 1), b>>
SeqClose(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Close(p[i], q[i], Small, 10)
MatLaws ==
  /\ MulMV(Mx, Vx) = MulMV1(Mx, Vx)
  /\ (\A i \in 1..Len(Pivots1(Mx)) : ~Close(Pivots1(Mx)[i], 0, Small, 1)) => SeqClose(Pivots(Mx), Pivots1(Mx))
  /\ (Len(Pivots(Mx)) = 3 /\ RLt(Small, Pivots(Mx)[3]) => Close(InvQuad(Mx, Vx), InvQuad1(Mx, Vx), Small, RAdd(1, InvQuad1(Mx, Vx))))
ASSUME REq(RParse("0x1.8p-3"), RDiv(3, 16)) /\ REq(RParse("-0x1.0000000000000p+1"), -2)
ASSUME REq(RParse("0.125"), RDiv(1, 8)) /\ REq(RParse("1e-2"), RDiv(1, 100)) /\ REq(RParse("0x0.0p+0"), 0)
ASSUME ~RIsNum(RParse("nan")) /\ ~RLe("nan", 1) /\ ~RLe(1, "inf") /\ ~RIsNum(RAdd("nan", 1)) /\ ~RIsNum(RDiv(1, 0))
ASSUME Close(RCos(RDiv(RPi, 3)), "1/2", Small, 1) /\ Close(RCos(RPi), -1, Small, 1)
ASSUME RSqrt("9/4") = RDiv(3, 2)
ASSUME RPow("2/3", -2) = RParse("9/4")
=============================================================================
