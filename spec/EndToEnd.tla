------------------------------ MODULE EndToEnd ------------------------------
(***************************************************************************)
(* Complete problems over a polyhedron {x : a_i'x <= b_i} and what a run   *)
(* of the cutting-plane method owes for them.                              *)
(*                                                                         *)
(* Every update keeps the part of the ellipsoid the cut leaves and shrinks *)
(* the volume by a factor of at most exp(-1/(2(n+1))).  A ball (y, r) of   *)
(* feasible points inside the initial ellipsoid therefore survives, and    *)
(* after k updates  r^n <= sqrt(det P0) exp(-k/(2(n+1))).                  *)
(* For min c'x the same holds of the better points: the copy of the        *)
(* polyhedron shrunk by d towards an optimum holds a ball of radius d r    *)
(* and is better than opt + d (c'x_max - opt).                             *)
(***************************************************************************)
EXTENDS SearchSpace
\* rows: sequence of [a |-> vector, b |-> offset]
Slack(row, x) == RSub(row.b, RDot(row.a, x))
Inside(rows, x) == \A i \in 1..Len(rows) : RLe(0, Slack(rows[i], x))
L1(v) == RSum(Force([i \in 1..Len(v) |-> RAbs(v[i])]))
InsideUpTo(rows, x, eps) ==
  \A i \in 1..Len(rows) : RLe(RNeg(RMul(eps, RAdd(RAbs(rows[i].b), RMul(L1(rows[i].a), RAdd(1, L1(x)))))), Slack(rows[i], x))
Norm(v) == RSqrt(RDot(v, v))
-----------------------------------------------------------------------------
(* vertices by Cramer's rule, n = 2 or 3 *)
D2(u, v) == RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))
D3(u, v, w) == RAdd(RSub(RMul(u[1], D2(<<v[2], v[3]>>, <<w[2], w[3]>>)), RMul(u[2], D2(<<v[1], v[3]>>, <<w[1], w[3]>>))),
                    RMul(u[3], D2(<<v[1], v[2]>>, <<w[1], w[2]>>)))
Str(v) == Force([i \in 1..Len(v) |-> RStr(v[i])])
Corner2(p, q) ==
  LET d == D2(p.a, q.a) IN
  IF REq(d, 0) THEN {}
  ELSE {Str(<<RDiv(D2(<<p.b, p.a[2]>>, <<q.b, q.a[2]>>), d), RDiv(D2(<<p.a[1], p.b>>, <<q.a[1], q.b>>), d)>>)}
Corner3(p, q, s) ==
  LET d == D3(p.a, q.a, s.a)
      R1(r) == <<r.b, r.a[2], r.a[3]>>
      R2(r) == <<r.a[1], r.b, r.a[3]>>
      R3(r) == <<r.a[1], r.a[2], r.b>>
  IN IF REq(d, 0) THEN {}
     ELSE {Str(<<RDiv(D3(R1(p), R1(q), R1(s)), d), RDiv(D3(R2(p), R2(q), R2(s)), d), RDiv(D3(R3(p), R3(q), R3(s)), d)>>)}
Vertices(n, rows) ==
  LET I == 1..Len(rows)
      all == IF n = 2 THEN UNION {Corner2(rows[i], rows[j]) : i, j \in I}
             ELSE UNION UNION UNION {{{Corner3(rows[i], rows[j], rows[k]) : k \in {k \in I : k > j}} : j \in {j \in I : j > i}} : i \in I}
  IN {v \in all : Inside(rows, v)}
RECURSIVE SumS(_, _)
SumS(n, S) == IF S = {} THEN Force([i \in 1..n |-> 0]) ELSE LET v == CHOOSE v \in S : TRUE IN AddV(v, SumS(n, S \ {v}))
Middle(n, S) == Str(ScaleV(RDiv(1, Cardinality(S)), SumS(n, S)))
RECURSIVE MinOf(_)
MinOf(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(s[1], MinOf(Tail(s)))
MinIn(S) == CHOOSE v \in S : \A w \in S : RLe(v, w)
-----------------------------------------------------------------------------
(* a ball of feasible points around y inside the ellipsoid (x0, diag) *)
Depth0(x0, diag, y) == RSqrt(RSum(Force([i \in 1..Len(y) |-> RDiv(RSq(RSub(y[i], x0[i])), diag[i])])))
Radius(rows, x0, diag, y) ==
  LET s == MinOf(Force([i \in 1..Len(rows) |-> RDiv(Slack(rows[i], y), Norm(rows[i].a))]))
      e == RMul(RSqrt(MinOf(diag)), RSub(1, Depth0(x0, diag, y)))
  IN RMin(s, e)
\* the number of updates such a ball allows: 2 (n+1) (ln sqrt(det P0) - n ln r)
LogVol(diag) == RDiv(RSum(Force([i \in 1..Len(diag) |-> RLn(diag[i])])), 2)
Bound(diag, r) == LET n == Len(diag) IN RMul(2 * (n + 1), RSub(LogVol(diag), RMul(n, RLn(r))))
\* relative size d of the better part still possible after k updates
Shrunk(diag, r, k) == LET n == Len(diag) IN RExp(RDiv(RSub(RSub(LogVol(diag), RDiv(k, 2 * (n + 1))), RMul(n, RLn(r))), n))
-----------------------------------------------------------------------------
(* certificates for larger dimensions, checked here *)
Combination(rows, lam) == Force([j \in 1..Len(rows[1].a) |-> RSum(Force([i \in 1..Len(rows) |-> RMul(lam[i], rows[i].a[j])]))])
Farkas(rows, lam) == /\ \A i \in 1..Len(lam) : RLe(0, lam[i])
                     /\ IsZeroV(Combination(rows, lam))
                     /\ RLt(RSum(Force([i \in 1..Len(rows) |-> RMul(lam[i], rows[i].b)])), 0)
Kkt(rows, c, y, lam) == /\ Inside(rows, y)
                        /\ \A i \in 1..Len(lam) : RLe(0, lam[i]) /\ (RLt(0, lam[i]) => REq(Slack(rows[i], y), 0))
                        /\ IsZeroV(AddV(c, Combination(rows, lam)))
=============================================================================
