-------------------------------- MODULE SSLaws --------------------------------
(* Exhaustive check, on a grid of slabs and dimensions, that the update of    *)
(* SearchSpace has the properties claimed for it: it contains what the cut    *)
(* keeps, is the smallest ellipsoid that does (John's conditions: tangency    *)
(* at both ends with multipliers that balance), and shrinks at least like a   *)
(* central cut when the offset is non-negative.                               *)
EXTENDS SearchSpace
CONSTANTS Dims, Grid       \* slab ends are k/Grid
VARIABLES n, k1, k2
vars == <<n, k1, k2>>
Init == n \in Dims /\ k1 \in (-Grid)..(Grid-1) /\ k2 \in (-Grid+1)..Grid /\ k1 < k2
Next == UNCHANGED vars
t1 == RDiv(k1, Grid)
t2 == RDiv(k2, Grid)
M == MinVol(n, t1, t2)
Same == REq(M.a2, 1) /\ REq(M.b2, 1) /\ REq(M.c, 0)
eps == "1e-30"
Proper == RLt(0, M.a2) /\ RLt(0, M.b2) /\ RLe(t1, M.c) /\ RLe(M.c, t2)
Sound == Contains(M, t1, t2, eps)
Tangent == Same \/ (Close(Excess(M, t1), 1, eps, 1) /\ Close(Excess(M, t2), 1, eps, 1))
\* John: weights l1, l2 >= 0 on the contact circles with l1 + l2 = n, zero
\* first moment, second moments a2 along and b2 across the axis
Balance ==
  Same \/ LET w == RSub(t2, t1)
              l1 == RDiv(M.a2, RMul(RSub(M.c, t1), w))
              l2 == RDiv(M.a2, RMul(RSub(t2, M.c), w))
          IN /\ RLe(0, l1) /\ RLe(0, l2)
             /\ Close(RAdd(l1, l2), n, eps, 1)
             /\ Close(RAdd(RMul(l1, RSq(RSub(t1, M.c))), RMul(l2, RSq(RSub(t2, M.c)))), M.a2, eps, 1)
             /\ Close(RAdd(RMul(l1, RSub(1, RSq(t1))), RMul(l2, RSub(1, RSq(t2)))), RMul(n - 1, M.b2), eps, 1)
SqVol == RMul(M.a2, RPow(M.b2, n - 1))
Shrinks == /\ RLe(SqVol, RAdd(1, eps))
           /\ k2 <= 0 => RLe(SqVol, RAdd(CentralFactor(n), eps))
=============================================================================
