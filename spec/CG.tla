---------------------------------- MODULE CG ----------------------------------
(* The conjugate-gradient iteration over rationals (rounded to 180 bits, which   *)
(* is exact for the purposes of doubles).  State: solution x, residual r,        *)
(* direction d.  For a positive definite matrix of order n the residual is zero  *)
(* after at most n steps.                                                        *)
EXTENDS RatMat, FiniteSets, TLC
Sub2(u, v) == Force([i \in 1..Len(u) |-> RRound(RSub(u[i], v[i]))])
Axpy(s, u, v) == Force([i \in 1..Len(u) |-> RRound(RAdd(RMul(s, u[i]), v[i]))])   \* s u + v
Start(A, b, x0) == LET r == Sub2(b, MulMV(A, x0)) IN [x |-> x0, r |-> r, d |-> r, k |-> 0]
StepCG(A, s) ==
  LET Ad == MulMV(A, s.d)
      rr == RDot(s.r, s.r)
      al == RRound(RDiv(rr, RDot(s.d, Ad)))
      r2 == Axpy(RNeg(al), Ad, s.r)
      be == RRound(RDiv(RDot(r2, r2), rr))
  IN [x |-> Axpy(al, s.d, s.x), r |-> r2, d |-> Axpy(be, s.d, r2), k |-> s.k + 1]
\* squared residual norms after 0, 1, ... steps, at most m of them; stops at (practically) zero
RECURSIVE Norms(_, _, _)
Norms(A, s, m) ==
  LET rr == RDot(s.r, s.r) IN
  IF m = 0 \/ RLe(rr, "1e-60") THEN <<rr>>
  ELSE <<rr>> \o Norms(A, StepCG(A, s), m - 1)
PDef(A) == LET p == Pivots(A) IN Len(p) = Len(A) /\ \A i \in 1..Len(p) : RLt("1e-20", p[i])
=============================================================================
