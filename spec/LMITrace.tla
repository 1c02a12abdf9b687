------------------------------ MODULE LMITrace ------------------------------
(* Recorded assessments: one point given to the oracles of one problem.       *)
EXTENDS LMI, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Must(p, c) == IF p THEN TRUE ELSE PrintT(<<"FAIL", l, c>>)
P == Trace[E.base]
ClearOrExact(A) == Clear(A) \/ (P.exact /\ ExactElim(A))
Norm1(g) == RSum([k \in 1..Len(g) |-> RAbs(g[k])])
AbsX(x, y) == RSum([k \in 1..Len(x) |-> RAdd(RAbs(x[k]), RAbs(y[k]))])
\* sensitivity of v'M(x)v to rounding of its terms
MaxEntry(A) == LET S == {RAbs(A[i][j]) : i, j \in 1..Len(A)} IN CHOOSE m \in S : \A t \in S : RLe(t, m)
RECURSIVE AbsAt(_, _)
AbsAt(x, k) == IF k = 0 THEN (IF P.hom THEN 0 ELSE MaxEntry(P.B))
               ELSE RAdd(AbsAt(x, k-1), RMul(RAbs(x[k]), MaxEntry(P.F[k])))
SumSq(v) == RSum([i \in 1..Len(v) |-> RSum([j \in 1..Len(v) |-> RAbs(RMul(v[i], v[j]))])])
Judge(a, A, sure, truth, x) ==
  IF a.err # "" THEN Must(FALSE, a.f \o " raised " \o a.err)
  ELSE
  /\ sure => Must(a.none = truth, a.f \o " verdict")
  /\ ~a.none =>
     IF Len(a.g) # Len(x) THEN Must(FALSE, a.f \o " gradient has the wrong length")
     ELSE
     LET vs == IF a.b > a.a THEN SubV2(a.v, a.a + 1, a.b) ELSE <<>>
         own == IF a.b > a.a THEN CutOf(P.hom, P.F, a.a + 1, a.b, vs, RNeg(QuadF(Sub(A, a.a + 1, a.b), vs))) ELSE [g |-> <<>>, ep |-> 0]
         sp == IF truth THEN [g |-> <<>>, ep |-> 0] ELSE SpecCut(P.hom, P.B, P.F, x)
         \* two cuts describe the same violation up to a positive factor
         same(c) == LET N == RAdd(Norm1(a.g), RAbs(a.ep)) M == RAdd(Norm1(c.g), RAbs(c.ep)) IN
                    Len(c.g) = Len(a.g) /\ RLt(0, M) /\ RLt(0, N)
                    /\ (\A k \in 1..Len(a.g) : Close(RDiv(a.g[k], N), RDiv(c.g[k], M), "1e-7", 1))
                    /\ Close(RDiv(a.ep, N), RDiv(c.ep, M), "1e-7", 1)
         direct == vs # <<>> /\ (\A k \in 1..Len(a.g) : Close(a.g[k], own.g[k], "1e-9", RMul(SumSq(vs), MaxEntry(P.F[k]))))
                   /\ Close(a.ep, own.ep, "1e-9", RMul(SumSq(vs), AbsAt(x, Len(x))))
         zero == (\A k \in 1..Len(a.g) : REq(a.g[k], 0)) /\ REq(a.ep, 0)
         scale(y) == RAdd(RAbs(a.ep), RSum([k \in 1..Len(x) |-> RMul(RAbs(a.g[k]), RAdd(RAbs(x[k]), RAbs(y[k])))]))
     IN /\ Must(RLe(0, a.ep), a.f \o " negative offset")
        /\ Must(\A i \in 1..Len(P.ys) : Feasible(P.hom, P.B, P.F, P.ys[i]) => RLe(Value(a, x, P.ys[i]), RMul("1e-9", scale(P.ys[i]))),
                a.f \o " cuts off a feasible point")
        /\ sure /\ ~truth => Must(direct \/ same(sp) \/ (zero /\ REq(Norm1(sp.g), 0) /\ REq(sp.ep, 0)),
                a.f \o " offset is not the violation along the returned direction")
SameCut(a, b) ==
  \/ a.err # "" \/ b.err # "" \/ a.none # b.none
  \/ a.none
  \/ LET N == RAdd(Norm1(a.g), RAbs(a.ep)) IN
     (\A k \in 1..Len(a.g) : Close(a.g[k], b.g[k], "1e-8", N)) /\ Close(a.ep, b.ep, "1e-8", N)
TAssess ==
  LET x == E.x
      A == At(P.hom, P.B, P.F, x)
      truth == PD(A)
      sure == ClearOrExact(A)
  IN /\ \A i \in 1..Len(E.ans) : Judge(E.ans[i], A, sure, truth, x)
     /\ sure => \A i \in 1..Len(E.ans) : Must(SameCut(E.ans[1], E.ans[i]), E.ans[i].f \o " disagrees with " \o E.ans[1].f)
Init == l = 1
Next ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1 /\ (IF E.ev = "new" THEN TRUE ELSE TAssess)
  \/ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintT(<<"CONSUMED", Len(Trace)>>)
=============================================================================
