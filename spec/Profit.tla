-------------------------------- MODULE Profit --------------------------------
(***************************************************************************)
(* Profit maximisation with a Cobb-Douglas production function.            *)
(* A plan is y = exp(x); parameters q: price p, scale A, limit k (of y_1), *)
(* elasticities a, input costs v.  A plan earns                            *)
(*        p A y1^a1 y2^a2 - v1 y1 - v2 y2                                  *)
(* and is admissible for the value gamma if y1 <= k and it earns at least  *)
(* gamma.  In log space the two constraints are                            *)
(*   f1(x) = x1 - ln k <= 0,                                               *)
(*   f2(x) = ln(gamma + v.y) - ln(pA) - a.x <= 0     (convex).             *)
(* Robust: price, costs and elasticities range over a box, the limit is    *)
(* reduced.  Since the profit is monotone in each uncertain number, its    *)
(* worst value is attained at a corner of the box.                         *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC
Y(x) == Force([i \in 1..2 |-> RExp(x[i])])
Cost(q, x) == LET y == Y(x) IN RAdd(RMul(q.v[1], y[1]), RMul(q.v[2], y[2]))
Revenue(q, x) == RMul(RMul(q.p, q.A), RExp(RDot(q.a, x)))
ProfitOf(q, x) == RSub(Revenue(q, x), Cost(q, x))
F1(q, x) == RSub(x[1], RLn(q.k))
F2(q, x, gamma) == RSub(RLn(RAdd(gamma, Cost(q, x))), RAdd(RLn(RMul(q.p, q.A)), RDot(q.a, x)))
G1 == <<1, 0>>
G2(q, x, gamma) == LET y == Y(x) c == RAdd(gamma, Cost(q, x)) IN
  Force([i \in 1..2 |-> RSub(RDiv(RMul(q.v[i], y[i]), c), q.a[i])])
Admissible(q, x, gamma) == RLe(x[1], RLn(q.k)) /\ RLe(gamma, ProfitOf(q, x))
-----------------------------------------------------------------------------
(* Robust problems: e = <<e1, e2, e3, e4, e5>> (elasticities, price, limit, costs) *)
Pm == {-1, 1}
Corner(q, e, s) == [q EXCEPT !.a = <<RAdd(q.a[1], RMul(s[1], e[1])), RAdd(q.a[2], RMul(s[2], e[2]))>>,
                             !.p = RAdd(q.p, RMul(s[3], e[3])),
                             !.k = RSub(q.k, e[4]),
                             !.v = <<RAdd(q.v[1], RMul(s[4], e[5])), RAdd(q.v[2], RMul(s[5], e[5]))>>]
Corners(q, e) == {Corner(q, e, s) : s \in Pm \X Pm \X Pm \X Pm \X Pm}
Worst(S) == CHOOSE m \in S : \A t \in S : RLe(m, t)
WorstProfit(q, e, x) == Worst({ProfitOf(c, x) : c \in Corners(q, e)})
RobustlyAdmissible(q, e, x, gamma) == RLe(x[1], RLn(RSub(q.k, e[4]))) /\ RLe(gamma, WorstProfit(q, e, x))
-----------------------------------------------------------------------------
(* Discrete plans: nearest positive integers; a tie may go either way.       *)
IsRounding(y, n) ==      \* n (an integer) is an acceptable rounding of y > 0
  \/ RLe(RAbs(RSub(y, n)), RAdd("1/2", RMul("1e-9", RMax(1, y)))) /\ RLe(1, n)
  \/ REq(n, 1) /\ RLe(y, RAdd("1/2", "1e-9"))
=============================================================================
