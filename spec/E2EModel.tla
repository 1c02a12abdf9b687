------------------------------ MODULE E2EModel ------------------------------
(***************************************************************************)
(* The method itself, run by the specification on drawn polyhedra with     *)
(* exact updates: feasible balls survive every cut, the number of updates  *)
(* stays below the bound, an optimisation run keeps every better point.    *)
(* The problems are written out and solved by the real code.               *)
(***************************************************************************)
EXTENDS EndToEnd, Json, CSV, IOUtils
CONSTANTS N, Extra, MaxK
VARIABLES rows, c, x0, diag, info, x, P, gamma, k, done
vars == <<rows, c, x0, diag, info, x, P, gamma, k, done>>
Box == Force([i \in 1..(2*N) |-> [a |-> Force([j \in 1..N |-> IF j = (i + 1) \div 2 THEN (IF i % 2 = 1 THEN 1 ELSE -1) ELSE 0]), b |-> 4]])
DrawV(m) == {Force([i \in 1..N |-> RandomElement(-m..m)])}
Init == /\ rows = <<>> /\ c = <<>> /\ x0 = <<>> /\ diag = <<>> /\ info = <<>>
        /\ x = <<>> /\ P = <<>> /\ gamma = "none" /\ k = 0 /\ done = "no"
RECURSIVE Drawn(_)
Drawn(m) == IF m = 0 THEN <<>> ELSE LET v == Force([i \in 1..N |-> RandomElement(-3..3)]) IN <<[a |-> v, b |-> RandomElement(-6..6)]>> \o Drawn(m - 1)
Pick(m) == {Force(Drawn(m))}
Describe(rs, cc, xx, dd) ==
  LET vs == Vertices(N, rs) IN
  IF vs = {} THEN [full |-> FALSE, empty |-> TRUE, ball |-> <<>>, r |-> "0", opt |-> "0", top |-> "0", whole |-> FALSE]
  ELSE LET y == Middle(N, vs)
           r == Radius(rs, xx, dd, y)
           vals == {RStr(RDot(cc, v)) : v \in vs}
       IN [full |-> RLt(0, r), empty |-> FALSE, ball |-> y, r |-> RStr(r), opt |-> MinIn(vals),
           top |-> CHOOSE w \in vals : \A v \in vals : RLe(v, w),
           whole |-> \A v \in vs : RLe(Depth0(xx, dd, v), 1)]
Make == /\ rows = <<>> /\ done = "no"
        /\ \E e \in Extra : \E rs \in Pick(e), cc \in DrawV(4), xx \in DrawV(3), w \in {{RandomElement(1..3)}} :
             LET good == SelectSeq(rs, LAMBDA q : ~IsZeroV(q.a))
                 rr == Box \o good
                 dd == Force([i \in 1..N |-> CASE w = {1} -> 200 [] w = {2} -> 100 + 7 * i [] w = {3} -> 9])
             IN /\ rows' = rr /\ c' = cc /\ x0' = xx /\ diag' = dd
                /\ info' = Describe(rr, cc, xx, dd)
                /\ x' = Str(xx) /\ P' = Force([i \in 1..N |-> Force([j \in 1..N |-> IF i = j THEN RStr(dd[i]) ELSE "0"])])
        /\ UNCHANGED <<gamma, k, done>>
\* the oracle of the specification: first violated row, else the objective
Violated == {i \in 1..Len(rows) : RLt(Slack(rows[i], x), 0)}
First == CHOOSE i \in Violated : \A j \in Violated : i <= j
TheCut == IF Violated # {} THEN [g |-> rows[First].a, b |-> RNeg(Slack(rows[First], x))]
          ELSE [g |-> c, b |-> IF gamma = "none" THEN 0 ELSE RMax(0, RSub(RDot(c, x), gamma))]
Better == Violated = {} /\ (gamma = "none" \/ RLt(RDot(c, x), gamma))
Step == /\ rows # <<>> /\ done = "no" /\ k < MaxK
        /\ IF Violated = {} /\ IsZeroV(c) THEN done' = "flat" /\ gamma' = RStr(0) /\ UNCHANGED <<rows, c, x0, diag, info, x, P, k>>
           ELSE LET ct == TheCut
                    tau == RSqrt(Quad(P, ct.g))
                IN /\ gamma' = IF Better THEN RStr(RDot(c, x)) ELSE gamma
                   /\ IF REq(tau, 0)        \* a tangent cut left a single point
                      THEN done' = (IF RLt(0, ct.b) THEN "nosoln" ELSE "point") /\ UNCHANGED <<x, P, k>>
                      ELSE IF EmptyCut("bias", TRUE, <<RDiv(ct.b, tau)>>) THEN done' = "nosoln" /\ UNCHANGED <<x, P, k>>
                      ELSE LET q == Post(x, P, ct.g, tau, After(N, "bias", TRUE, <<RDiv(ct.b, tau)>>)) IN
                           /\ x' = Str(q.x) /\ P' = Force([i \in 1..N |-> Str(q.P[i])]) /\ k' = k + 1 /\ done' = "no"
                   /\ UNCHANGED <<rows, c, x0, diag, info>>
Stop == rows # <<>> /\ done = "no" /\ k = MaxK /\ done' = "budget" /\ UNCHANGED <<rows, c, x0, diag, info, x, P, gamma, k>>
Next == Make \/ Step \/ Stop
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Ready == rows # <<>>
\* before the first feasible point the number of updates stays below the bound
InTime == Ready /\ info.full /\ gamma = "none" => RLe(k, Bound(diag, info.r)) /\ done # "nosoln"
NeverWrong == Ready /\ info.empty => gamma = "none"
\* once feasible: the gap is bounded by what the updates so far imply
Gap == Ready /\ info.full /\ info.whole /\ gamma # "none" =>
         RLe(RSub(gamma, info.opt), RMul(RSub(info.top, info.opt), RMin(1, RMul(RAdd(1, "1e-20"), Shrunk(diag, info.r, k)))))
\* the initial ellipsoid's feasible centre of the ball stays inside until a cut may remove it (no better value known)
BallStays == Ready /\ info.full /\ gamma = "none" => RLe(InvQuad(P, SubV(info.ball, x)), 1)
Exact == done = "nosoln" /\ info.whole /\ gamma # "none" => Close(gamma, info.opt, "1e-20", 1)
Emit == done # "no" => CSVWrite("%1$s", <<ToJson([rows |-> rows, c |-> c, x0 |-> x0, diag |-> diag])>>, IOEnv.OUT)
=============================================================================
