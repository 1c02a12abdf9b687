-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic.                                              *)
(*                                                                         *)
(* TLC's integers have 32 bits; the quantities of this system are IEEE     *)
(* doubles, i.e. dyadic rationals with denominators up to 2^1074.  A       *)
(* rational is written in specifications as an integer, as a string        *)
(* ("3/7", "0.125", or a double in the notation of Python's float.hex(),   *)
(* "0x1.8p-3"), or is the result of an operator of this module.  The       *)
(* operators are evaluated by the Java class Rat (directory java/) with    *)
(* unbounded integers; module RatLaws checks them against TLC's own        *)
(* integer arithmetic.                                                     *)
(*                                                                         *)
(* "nan" (also: infinities) is absorbing for arithmetic, and every         *)
(* comparison with it is FALSE, so that verdicts are total.                *)
(***************************************************************************)
EXTENDS Integers, Sequences

RParse(s) == CHOOSE r : TRUE       \* string or integer -> rational
RStr(r)   == CHOOSE s : TRUE       \* canonical string (used in state variables)
RAdd(a, b) == CHOOSE r : TRUE
RSub(a, b) == CHOOSE r : TRUE
RMul(a, b) == CHOOSE r : TRUE
RDiv(a, b) == CHOOSE r : TRUE      \* "nan" when b = 0
RNeg(a)    == CHOOSE r : TRUE
RAbs(a)    == CHOOSE r : TRUE
RLt(a, b)  == CHOOSE r : TRUE
RLe(a, b)  == CHOOSE r : TRUE
REq(a, b)  == CHOOSE r : TRUE
RIsNum(a)  == CHOOSE r : TRUE
RFloor(a)  == CHOOSE r : TRUE      \* a TLC integer
RFits(a, k) == CHOOSE r : TRUE     \* a = m 2^e with integers m, e and |m| < 2^k
RPow(a, k) == CHOOSE r : TRUE      \* k an integer
RSum(s)    == CHOOSE r : TRUE      \* of a sequence
RDot(s, t) == CHOOSE r : TRUE      \* inner product of two sequences
RRound(a)  == CHOOSE r : TRUE      \* to 50 significant digits
RSqrt(a)   == CHOOSE r : TRUE      \* exact on squares, else error < 10^-40
RExp(a)    == CHOOSE r : TRUE      \* error < 10^-40, relative
RLn(a)     == CHOOSE r : TRUE      \* error < 10^-40
RCos(a)    == CHOOSE r : TRUE      \* error < 10^-40
RPi        == CHOOSE r : TRUE

Force(v)   == v                    \* the identity (evaluated once)

a \oplus b    == RAdd(a, b)
a \ominus b   == RSub(a, b)
a \otimes b   == RMul(a, b)
a \oslash b   == RDiv(a, b)
a \prec b     == RLt(a, b)
a \preceq b   == RLe(a, b)
a \succ b     == RLt(b, a)
a \succeq b   == RLe(b, a)

RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RSq(a)     == RMul(a, a)

(* |a - b| <= tol * scale *)
Close(a, b, tol, scale) == RLe(RAbs(RSub(a, b)), RMul(tol, scale))
=============================================================================
