----------------------------- MODULE SearchSpace -----------------------------
(***************************************************************************)
(* The ellipsoidal search space                                            *)
(*      E(xc, P) = {x : (x - xc)' P^-1 (x - xc) <= 1}                      *)
(* and its updates by cuts, over exact rationals.                          *)
(*                                                                         *)
(* A cut with gradient g and offsets keeps the slab                        *)
(*      -beta1 <= g'(x - xc) <= -beta0      (single: no lower side).       *)
(* With tau^2 = g'Pg and t = g'(x - xc)/tau, the ellipsoid is -1 <= t <= 1 *)
(* and the kept part is t1 <= t <= t2.  Everything about one update is a   *)
(* statement about n, t1 and t2:  the new ellipsoid is                     *)
(*      xc' = xc + c Pg/tau,   P' = b2 P + (a2 - b2) (Pg)(Pg)'/tau^2       *)
(* with the centre c, the squared semi-axis a2 along g and the squared     *)
(* factor b2 across it given by MinVol below.                              *)
(***************************************************************************)
EXTENDS RatMat, FiniteSets, TLC

-----------------------------------------------------------------------------
(* Linear algebra on sequences of rationals *)
Vec(n, F(_))   == [i \in 1..n |-> F(i)]
SubV(u, v)     == Force([i \in 1..Len(u) |-> RSub(u[i], v[i])])
AddV(u, v)     == Force([i \in 1..Len(u) |-> RAdd(u[i], v[i])])
ScaleV(s, v)   == Force([i \in 1..Len(v) |-> RMul(s, v[i])])
Quad(A, v)     == RDot(v, MulMV(A, v))
IsZeroV(v)     == \A i \in 1..Len(v) : REq(v[i], 0)
Ident(n)       == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]

PosDef(A) == LET p == Pivots(A) IN Len(p) = Len(A) /\ \A i \in 1..Len(p) : RLt(0, p[i])
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE RRound(RMul(Head(s), Prod(Tail(s))))
Det(A) == Prod(Pivots(A))          \* of a positive definite matrix

-----------------------------------------------------------------------------
(* The minimum-volume ellipsoid around {t1 <= t <= t2} of the unit ball.    *)
(* When t1 t2 <= -1/n the ball itself is the smallest.  Otherwise the       *)
(* centre is the root of  (n+1) s c^2 - (n s^2 + 2(1+p)) c + s(1+np) = 0    *)
(* with s = t1 + t2, p = t1 t2.  Module SSLaws checks John's optimality     *)
(* conditions for it.                                                       *)
MinVol(n, t1, t2) ==
  LET s == RAdd(t1, t2)
      p == RMul(t1, t2)
      np1 == RAdd(1, RMul(n, p))
  IN IF RLe(np1, 0) THEN [c |-> 0, a2 |-> 1, b2 |-> 1]
     ELSE LET B == RAdd(RMul(n, RSq(s)), RMul(2, RAdd(1, p)))
              disc == RSub(RSq(B), RMul(RMul(4 * (n + 1), RSq(s)), np1))
              c == RRound(RDiv(RMul(RMul(2, s), np1), RAdd(B, RSqrt(RMax(0, disc)))))
          IN [c |-> c,
              a2 |-> RRound(RMul(n, RMul(RSub(c, t1), RSub(t2, c)))),
              b2 |-> RRound(RDiv(RMul(n, RSub(RAdd(1, p), RMul(c, s))), n - 1))]

(* Containment of {t1 <= t <= t2} in the ellipsoid (c, a2, b2), up to tol *)
Excess(m, t) == RAdd(RDiv(RSq(RSub(t, m.c)), m.a2), RDiv(RSub(1, RSq(t)), m.b2))
Contains(m, t1, t2, tol) ==
  LET lim == RAdd(1, tol)
      ends == RLe(Excess(m, t1), lim) /\ RLe(Excess(m, t2), lim)
  IN IF RLe(m.a2, m.b2) THEN ends
     ELSE LET ts == RDiv(RMul(m.c, m.b2), RSub(m.b2, m.a2))
          IN ends /\ (RLt(t1, ts) /\ RLt(ts, t2) => RLe(Excess(m, ts), lim))

(* Squared volume factor of a central cut *)
CentralFactor(n) == RMul(RPow(RDiv(n * n, n * n - 1), n), RDiv(n - 1, n + 1))

-----------------------------------------------------------------------------
(* The decision about a cut.  op: "bias", "central", "q"; bs: one or two    *)
(* offsets divided by tau; par: parallel cuts enabled.                      *)
Pair(par, bs) == par /\ Len(bs) = 2
B0(op, bs) == IF op = "central" THEN 0 ELSE bs[1]

EmptyCut(op, par, bs) ==
  \/ RLt(1, B0(op, bs))
  \/ Pair(par, bs) /\ (RLt(bs[2], B0(op, bs)) \/ RLt(bs[2], -1))

\* the kept part, for a cut that is not empty
T2(op, bs) == RMax(-1, RMin(1, RNeg(B0(op, bs))))
T1(par, bs) == IF Pair(par, bs) THEN RMax(-1, RNeg(bs[2])) ELSE -1
Useless(n, op, par, bs) == RLe(RAdd(1, RMul(n, RMul(T1(par, bs), T2(op, bs)))), 0)

Status(n, op, par, bs) ==
  IF EmptyCut(op, par, bs) THEN "NoSoln"
  ELSE IF op = "q" /\ Useless(n, op, par, bs) THEN "NoEffect"
  ELSE "Success"

\* calls outside the domain of the biased update, refused by an assertion
OutOfDomain(op, par, bs) ==
  op = "bias" /\ RLt(bs[1], 0) /\ (~Pair(par, bs) \/ RLe(1, bs[2]))

\* the ellipsoid after a successful cut
After(n, op, par, bs) ==
  IF Useless(n, op, par, bs) THEN [c |-> 0, a2 |-> 1, b2 |-> 1]
  ELSE MinVol(n, T1(par, bs), T2(op, bs))

Post(x, P, g, tau, m) ==
  LET n == Len(g)
      Pg == MulMV(P, g)
      r == RDiv(RSub(m.a2, m.b2), RSq(tau))
  IN [x |-> Force([i \in 1..n |-> RRound(RAdd(x[i], RDiv(RMul(m.c, Pg[i]), tau)))]),
      P |-> Force([i \in 1..n |-> [j \in 1..n |-> RRound(RAdd(RMul(m.b2, P[i][j]), RMul(r, RMul(Pg[i], Pg[j]))))]])]
=============================================================================
