------------------------------- MODULE Spectral -------------------------------
(* Filters h_0..h_(n-1), their autocorrelation r_j = sum_i h_i h_(i+j), the      *)
(* spectrum r_0 + 2 sum r_j cos(j w) = |H(w)|^2, and the minimum-phase property  *)
(* (no zero of h_0 z^(n-1) + ... + h_(n-1) outside the unit circle) decided by   *)
(* the Schur-Cohn recursion.                                                     *)
EXTENDS Rat, FiniteSets, TLC
AutoCorr(h) == Force([j \in 1..Len(h) |-> RSum([i \in 1..(Len(h)-j+1) |-> RMul(h[i], h[i+j-1])])])
Response(r, w) == RAdd(r[1], RSum([j \in 1..(Len(r)-1) |-> RMul(RMul(2, r[j+1]), RCos(RMul(j, w)))]))
SumAbs(r) == RSum([j \in 1..Len(r) |-> RAbs(r[j])])
\* all zeros strictly inside the circle of radius rho
Shrunk(h, rho) == Force([i \in 1..Len(h) |-> RRound(RMul(h[i], RPow(rho, 1 - i)))])
RECURSIVE Inside(_)
Inside(a) ==
  IF Len(a) <= 1 THEN Len(a) = 1 /\ ~REq(a[1], 0)
  ELSE LET n == Len(a)
           k == RDiv(a[n], a[1])
       IN /\ ~REq(a[1], 0)
          /\ RLt(RAbs(k), 1)
          /\ Inside(Force([i \in 1..(n-1) |-> RRound(RSub(a[i], RMul(k, a[n+1-i])))]))
\* trailing zero coefficients are zeros at the origin
RECURSIVE Trim(_)
Trim(h) == IF Len(h) > 1 /\ REq(h[Len(h)], 0) THEN Trim(SubSeq(h, 1, Len(h)-1)) ELSE h
MinPhase(h, rho) == Inside(Shrunk(Trim(h), rho))
=============================================================================
