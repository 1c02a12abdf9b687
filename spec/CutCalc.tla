------------------------------- MODULE CutCalc -------------------------------
(***************************************************************************)
(* The three coefficients of one cut: centre displacement rho, shrink      *)
(* sigma along the gradient, scale delta.  They encode the ellipsoid of    *)
(* SearchSpace.MinVol:  c = -rho/tau,  b2 = delta,  a2 = delta (1 - sigma).*)
(***************************************************************************)
EXTENDS SearchSpace
Coef(n, t1, t2, tau) ==
  LET m == MinVol(n, t1, t2)
  IN [rho |-> RRound(RNeg(RMul(m.c, tau))), sigma |-> RRound(RSub(1, RDiv(m.a2, m.b2))), delta |-> m.b2]
CentralCoef(n, tau) == [rho |-> RDiv(tau, n + 1), sigma |-> RDiv(2, n + 1), delta |-> RDiv(n * n, n * n - 1)]
BiasCoef(n, beta, tau) == Coef(n, -1, RNeg(RDiv(beta, tau)), tau)
ParCoef(n, b0, b1, tsq) == LET tau == RSqrt(tsq) IN Coef(n, RNeg(RDiv(b1, tau)), RNeg(RDiv(b0, tau)), tau)
\* touching the kept part at both of its ends
Touches(n, k, t1, t2, tau, tol) ==
  LET m == [c |-> RNeg(RDiv(k.rho, tau)), a2 |-> RMul(k.delta, RSub(1, k.sigma)), b2 |-> k.delta]
  IN Close(Excess(m, t1), 1, tol, 1) /\ Close(Excess(m, t2), 1, tol, 1)
CoefClose(u, v, tau, tol) ==
  /\ Close(u.rho, v.rho, tol, tau) /\ Close(u.sigma, v.sigma, tol, 1) /\ Close(u.delta, v.delta, tol, RMax(1, v.delta))
=============================================================================
