------------------------------- MODULE Lowpass -------------------------------
(***************************************************************************)
(* The lowpass filter specification on a grid of m = 15 n frequencies      *)
(* w_k = pi k/(m-1), k = 0..m-1, for filters of n autocorrelation          *)
(* coefficients x: the response at w is x_0 + 2 sum_j x_j cos(j w).         *)
(*   passband     k <= wpass (m-1)           lp <= response <= up          *)
(*   transition   up to wstop (m-1)          0 <= response                 *)
(*   stopband     the rest                   0 <= response <= sp           *)
(* A constraint is [g, lo, hi]: lo <= g.x <= hi with g a row of the grid.  *)
(***************************************************************************)
EXTENDS RatMat, FiniteSets, TLC
Grid(n) == 15 * n
\* cos(pi t/(m-1)) for t = 0..2m-3: all entries are among them
Cosines(m) == Force([t \in 1..(2*m-2) |-> RRound(RCos(RDiv(RMul(RPi, t-1), m-1)))])
Spectrum(n) ==
  LET m == Grid(n)
      C == Cosines(m)
  IN Force([k \in 1..m |-> Force([j \in 1..n |-> IF j = 1 THEN 1 ELSE RMul(2, C[(((j-1)*(k-1)) % (2*m-2)) + 1])])])
\* ends of the bands (numbers of frequencies before them)
EndPass(m, wpass) == RFloor(RMul(wpass, m-1)) + 1
EndTrans(m, wstop) == RFloor(RMul(wstop, m-1)) + 1
Lower(k, np, lp) == IF k <= np THEN lp ELSE 0
Upper(k, np, ns, up, sp) == IF k <= np THEN up ELSE IF k > ns THEN sp ELSE "none"
=============================================================================
