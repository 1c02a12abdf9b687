------------------------------ MODULE E2ETrace ------------------------------
(* Complete runs of the real code on polyhedra (module EndToEnd).            *)
EXTENDS EndToEnd, Json, IOUtils
VARIABLES l, info      \* info: what is known about the current problem
vars == <<l, info>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Must(p, c) == IF p THEN TRUE ELSE PrintT(<<"FAIL", l, c>>)
eps == "1e-9"
None == [full |-> FALSE, empty |-> FALSE, ball |-> <<>>, r |-> "0", opt |-> "none", top |-> "0", whole |-> FALSE, wide |-> FALSE,
         base |-> 0, amin |-> "1", span |-> "1"]
TopBox(n, rows, c) == RSum(Force([i \in 1..n |-> RMul(RAbs(c[i]), RMax(RAbs(rows[2*i-1].b), RAbs(rows[2*i].b)))]))
Amin(rows) == RStr(MinOf(Force([i \in 1..Len(rows) |-> Norm(rows[i].a)])))
\* every point of S seen from the centre; from every point of S
Sees(x0, diag, S) == \A v \in S : RLe(Depth0(x0, diag, v), 1)
FromAll(diag, S) == \A v, w \in S : RLe(Depth0(v, diag, w), 1)
BoxCorners(n, B) == {Force([i \in 1..n |-> IF f[i] = 1 THEN B ELSE RNeg(B)]) : f \in [1..n -> {0, 1}]}
Small(p) ==      \* two or three variables: everything is computed
  LET vs == Vertices(p.n, p.rows) IN
  IF vs = {} THEN [None EXCEPT !.empty = TRUE, !.base = l]
  ELSE LET y == Middle(p.n, vs)
           r == Radius(p.rows, p.x0, p.diag, y)
           vals == {RStr(RDot(p.c, v)) : v \in vs}
       IN [full |-> RLt("1e-6", r), empty |-> FALSE, ball |-> y, r |-> RStr(r), opt |-> MinIn(vals),
           top |-> CHOOSE w \in vals : \A v \in vals : RLe(v, w), whole |-> Sees(p.x0, p.diag, vs),
           wide |-> Sees(p.x0, p.diag, vs) /\ FromAll(p.diag, vs), base |-> l, amin |-> Amin(p.rows), span |-> RStr(TopBox(p.n, p.rows, p.c))]
Cert(p) ==
  LET r == Radius(p.rows, p.x0, p.diag, p.ball)
      B == p.rows[CHOOSE i \in 1..Len(p.rows) : \A j \in 1..Len(p.rows) : RLe(p.rows[j].b, p.rows[i].b)].b   \* largest offset
      sum == RSum(Force([i \in 1..p.n |-> RDiv(RSq(RAdd(RAbs(p.x0[i]), RAbs(p.rows[2*i].b))), p.diag[i])]))
      wsum == RSum(Force([i \in 1..p.n |-> RDiv(RSq(RMul(2, p.rows[2*i].b)), p.diag[i])]))
  IN [full |-> RLt("1e-6", r), empty |-> FALSE, ball |-> p.ball, r |-> RStr(r),
      opt |-> IF Kkt(p.rows, p.c, p.best, p.lam) THEN RStr(RDot(p.c, p.best)) ELSE "none",
      top |-> RStr(TopBox(p.n, p.rows, p.c)), whole |-> RLe(sum, 1), wide |-> RLe(sum, 1) /\ RLe(wsum, 1), base |-> l,
      amin |-> Amin(p.rows), span |-> RStr(TopBox(p.n, p.rows, p.c))]
TProblem ==
  /\ info' = CASE E.kind = "plain" -> Small(E)
               [] E.kind = "cert" -> Cert(E)
               [] E.kind = "farkas" -> [None EXCEPT !.empty = Farkas(E.rows, E.lam), !.base = l]
  /\ Must(E.kind = "farkas" => Farkas(E.rows, E.lam), "bad certificate")
  /\ Must(E.kind = "cert" => Inside(E.rows, E.ball), "bad ball")
Prob == Trace[info.base]
\* the run has to find a feasible point
Finds == /\ info.full
         /\ RLt(Bound(Prob.diag, info.r), E.N - 1)
         /\ RLt(E.tol, RSq(RDiv(RMul(info.r, info.amin), 2)))
TFeas ==
  /\ Must(E.err = "", "raised " \o E.err)
  /\ Must(info.empty => E.x = <<>>, "an infeasible problem was answered with a point")
  /\ Must(E.x # <<>> => InsideUpTo(Prob.rows, E.x, eps), "the point returned is not feasible")
  /\ Must(E.err = "" /\ Finds => E.x # <<>>, "a feasible problem was reported as infeasible")
  /\ Must(E.err = "" /\ E.x # <<>> /\ info.full => RLe(E.k, RAdd(1, Bound(Prob.diag, info.r))), "more iterations than the bound")
  /\ UNCHANGED info
\* gap allowed after the run; the plain ellipsoid loses digits over many updates (thin optimal faces)
Allowed ==
  LET d == RMax(Shrunk(Prob.diag, info.r, E.k), IF E.k < E.N THEN RDiv(RSqrt(E.tol), RMul(info.r, RMin(info.amin, Norm(Prob.c)))) ELSE 0)
  IN RAdd(RMul(RSub(info.top, info.opt), RMin(1, RMul("1.001", d))), RMul(IF E.k > 300 THEN "1e-4" ELSE "5e-6", RAdd(1, info.span)))
TOptim ==
  /\ Must(E.err = "", "optimisation raised " \o E.err)
  /\ Must(info.empty => E.x = <<>>, "an infeasible problem was answered with a point")
  /\ Must(E.x # <<>> => InsideUpTo(Prob.rows, E.x, eps), "the best point is not feasible")
  /\ Must(E.x # <<>> => Close(RDot(Prob.c, E.x), E.val, eps, RAdd(1, info.span)), "the value is not that of the best point")
  /\ Must(E.err = "" /\ E.x = <<>> => (IF E.start = "inf" THEN E.val = "inf" ELSE REq(E.val, E.start)), "the value changed without a point")
  /\ Must(E.err = "" /\ Finds /\ info.whole => E.x # <<>>, "a feasible problem was left without an answer")
  /\ Must(E.x # <<>> /\ info.full /\ info.whole /\ info.opt # "none" => RLe(RSub(E.val, info.opt), Allowed), "the value is too far from the optimum")
  /\ UNCHANGED info
\* bisection: the least value that can be attained, up to the tolerances of both searches
TBs ==
  LET d == RMin(1, RMul(2, Shrunk(Prob.diag, info.r, E.N - 1)))
      slack == RAdd(RMul(2, E.tol), RAdd(RMul(RSub(info.top, info.opt), d), RMul("1e-6", RAdd(1, info.span))))
  IN
  /\ Must(E.err = "", "bisection raised " \o E.err)
  /\ Must(E.err = "" /\ info.empty => REq(E.val, E.hi), "bisection accepted a value of an infeasible problem")
  /\ Must(E.err = "" /\ info.full /\ info.wide /\ info.opt # "none" =>
            /\ RLe(RSub(info.opt, RMul("1e-6", RAdd(1, info.span))), E.val)
            /\ RLe(E.val, RAdd(info.opt, slack)), "bisection is too far from the optimum")
  /\ Must(E.err = "" /\ info.full /\ info.wide /\ info.opt # "none" /\ RLt(RAdd(info.opt, slack), E.hi) =>
            InsideUpTo(Prob.rows, E.x, eps) /\ RLe(RDot(Prob.c, E.x), RAdd(E.val, RMul(eps, RAdd(1, info.span)))), "the point of the bisection does not attain its value")
  /\ UNCHANGED info
\* with one equation a'x = d, given as a slab without width, that the ball's centre satisfies
TEq ==
  /\ Must(E.err = "", "equation: raised " \o E.err)
  /\ Must(E.x # <<>> => InsideUpTo(Prob.rows, E.x, "1e-8") /\ Close(RDot(E.a, E.x), E.d, "1e-7", RAdd(1, RAbs(E.d))), "equation: the point returned is not feasible")
  /\ Must(E.err = "" /\ info.full /\ REq(RDot(E.a, info.ball), E.d) /\ RLt(RMul(2, Bound(Prob.diag, info.r)), E.N - 1)
            => E.x # <<>> /\ RLe(E.k, RAdd(3, RMul(2, Bound(Prob.diag, info.r)))), "equation: a feasible problem was not solved in time")
  /\ UNCHANGED info
Init == l = 1 /\ info = None
Next == \/ /\ l <= Len(Trace)
           /\ CASE E.ev = "problem" -> TProblem [] E.ev = "feas" -> TFeas [] E.ev = "optim" -> TOptim [] E.ev = "eq" -> TEq [] E.ev = "bs" -> TBs
           /\ l' = l + 1
        \/ /\ l = Len(Trace) + 1 /\ PrintT(<<"CONSUMED", l - 1>>) /\ l' = l + 1 /\ UNCHANGED info
=============================================================================
