----------------------------- MODULE CutCalcGen -----------------------------
(* Every slab on a grid, in several dimensions and scales, with the exact    *)
(* coefficients; checks the two reductions (zero lower offset, zero offset). *)
EXTENDS CutCalc, Json, CSV, IOUtils
CONSTANTS Dims, Grid, Scales
VARIABLES n, k0, k1, sc
vars == <<n, k0, k1, sc>>
\* offsets k/Grid in units of tau; k1 = Grid + 1 stands for "no second hyperplane"
Init == /\ n \in Dims /\ sc \in Scales
        /\ k0 \in (-Grid+1)..(Grid-1) /\ k1 \in (-Grid+1)..(Grid+1) /\ k0 < k1 /\ k1 # Grid
        /\ IF k1 > Grid THEN n * k0 > -Grid ELSE Grid * Grid + n * k0 * k1 > 0
Next == UNCHANGED vars
tau == RPow(10, sc - 6)
b0 == RMul(RDiv(k0, Grid), tau)
b1 == RMul(RDiv(k1, Grid), tau)
One == k1 > Grid
K == IF One THEN BiasCoef(n, b0, tau) ELSE ParCoef(n, b0, b1, RSq(tau))
Reduces == One /\ k0 = 0 => CoefClose(K, CentralCoef(n, tau), tau, "1e-30")
TouchesIt == Touches(n, K, IF One THEN -1 ELSE RNeg(RDiv(k1, Grid)), RNeg(RDiv(k0, Grid)), tau, "1e-25")
Emit == CSVWrite("%1$s", <<ToJson([n |-> n, b0 |-> RStr(b0), b1 |-> IF One THEN "none" ELSE RStr(b1), tsq |-> RStr(RSq(tau)),
                                   rho |-> RStr(K.rho), sigma |-> RStr(K.sigma), delta |-> RStr(K.delta)])>>, IOEnv.OUT)
=============================================================================
