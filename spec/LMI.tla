--------------------------------- MODULE LMI ---------------------------------
(* Linear matrix inequalities.  A problem is a constant matrix B ("zero" for   *)
(* the homogeneous oracle) and coefficient matrices F:                          *)
(*    M(x) = B - sum x_k F_k      (lazy and explicit oracle)                    *)
(*    M(x) = sum x_k F_k          (homogeneous oracle)                          *)
(* feasible: M(x) positive definite.  A rejection with witness v on a window   *)
(* gives the cut  g_k = v'F_k v (sign reversed for the homogeneous oracle),    *)
(* ep = -v'M(x)v, and  g.(y - x) + ep = -v'M(y)v, which is <= 0 for every      *)
(* feasible y.                                                                 *)
EXTENDS LDLT
At(hom, B, F, x) ==
  Force([i \in 1..Len(F[1]) |-> Force([j \in 1..Len(F[1]) |->
     LET s == RSum([k \in 1..Len(x) |-> RMul(F[k][i][j], x[k])]) IN IF hom THEN s ELSE RSub(B[i][j], s)])])
RECURSIVE Eliminate(_, _)
Eliminate(A, s) == IF Done(A, s) THEN s ELSE Eliminate(A, Row(A, FALSE, s))
Fresh(n) == Begin(Force([i \in 1..n |-> Force([j \in 1..n |-> 0])]))
Factored(A) == Eliminate(A, Fresh(Len(A)))
CutOf(hom, F, a, b, v, ep) ==     \* from a witness v on the window a..b (from 1)
  [g |-> Force([k \in 1..Len(F) |-> LET q == QuadF(Sub(F[k], a, b), v) IN IF hom THEN RNeg(q) ELSE q]), ep |-> ep]
SpecCut(hom, B, F, x) ==
  LET A == At(hom, B, F, x)
      s == Factored(A)
  IN CutOf(hom, F, s.pos[1] + 1, s.pos[2], Witness(s), Ep(s))
Value(c, x, y) == RAdd(RSum([k \in 1..Len(x) |-> RMul(c.g[k], RSub(y[k], x[k]))]), c.ep)
Feasible(hom, B, F, y) == PD(At(hom, B, F, y))
=============================================================================
