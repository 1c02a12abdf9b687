------------------------------- MODULE PFTrace -------------------------------
(* Recorded assessments of the real profit oracles (plain, robust, discrete). *)
EXTENDS Profit, Json, IOUtils
VARIABLES l, plan      \* plan: last rounded plan (log space), <<>> if none yet
vars == <<l, plan>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
P == Trace[E.base]
Must(p, c) == IF p THEN TRUE ELSE PrintT(<<"FAIL", l, c>>)
tol == "1e-9"
Val(g, b, x, y) == RAdd(RAdd(RMul(g[1], RSub(y[1], x[1])), RMul(g[2], RSub(y[2], x[2]))), b)
SizeG(g) == RAdd(RAbs(g[1]), RAbs(g[2]))
SizeX(x) == RAdd(1, RAdd(RAbs(x[1]), RAbs(x[2])))
Near(a, b, x) == Close(a, b, tol, SizeX(x))
NearG(g, h) == \A i \in 1..2 : Close(g[i], h[i], tol, RMul(10, RAdd(1, RAbs(h[i]))))
\* the two constraints at x under parameters q, as cuts
IsCut1(q, x, g, b) == NearG(g, G1) /\ Near(b, F1(q, x), x)
IsCut2(q, x, gam, g, b) == NearG(g, G2(q, x, gam)) /\ Near(b, F2(q, x, gam), x)
Keeps(g, b, x, ok(_)) == \A i \in 1..Len(E.ys) : ok(E.ys[i]) => RLe(Val(g, b, x, E.ys[i]), RMul(tol, RMul(SizeG(g), RAdd(SizeX(x), SizeX(E.ys[i])))))
-----------------------------------------------------------------------------
\* the plain oracle asked about x with value gam (value E.val, cut E.g, E.b)
Plain(q, x, gam, tag) ==
  LET f1 == F1(q, x)
      f2 == F2(q, x, gam)
      sx == RMul(tol, SizeX(x))
      pr == ProfitOf(q, x)
      ps == RAdd(Revenue(q, x), RAdd(1, Cost(q, x)))
      h == G2(q, x, pr)
  IN
  IF E.val = "none"
  THEN /\ Must(RLt(RNeg(sx), f1) \/ RLt(RNeg(sx), f2), tag \o "rejected although admissible")
       /\ Must(RLt(0, E.b), tag \o "constraint not violated at the point")
       /\ Must(IsCut1(q, x, E.g, E.b) \/ IsCut2(q, x, gam, E.g, E.b), tag \o "offset or direction is not that of a constraint")
       /\ Must(Keeps(E.g, E.b, x, LAMBDA y : Admissible(q, y, gam)), tag \o "cut removes a better plan")
  ELSE /\ Must(RLe(f1, sx) /\ RLe(f2, sx), tag \o "accepted although not admissible")
       /\ Must(Close(E.val, pr, tol, ps), tag \o "value is not the profit of the plan")
       /\ Must(RLe(gam, RAdd(E.val, RMul(tol, ps))), tag \o "value below the current one")
       /\ Must(REq(E.b, 0), tag \o "cut at an accepted point is not central")
       /\ Must(NearG(E.g, h), tag \o "direction of the central cut")
       /\ Must(Keeps(E.g, E.b, x, LAMBDA y : Admissible(q, y, pr)), tag \o "cut removes a better plan")
TPlain == Plain(P.q, E.x, E.gamma, "C18 ")
TFeas ==       \* assess_feas of the plain oracle
  LET f1 == F1(P.q, E.x)
      f2 == F2(P.q, E.x, E.gamma)
      sx == RMul(tol, SizeX(E.x))
  IN IF E.none THEN Must(RLe(f1, sx) /\ RLe(f2, sx), "C18 accepted although not admissible")
     ELSE /\ Must(RLt(RNeg(sx), f1) \/ RLt(RNeg(sx), f2), "C18 rejected although admissible")
          /\ Must(RLt(0, E.b), "C18 constraint not violated at the point")
          /\ Must(IsCut1(P.q, E.x, E.g, E.b) \/ IsCut2(P.q, E.x, E.gamma, E.g, E.b), "C18 offset or direction is not that of a constraint")
          /\ Must(Keeps(E.g, E.b, E.x, LAMBDA y : Admissible(P.q, y, E.gamma)), "C18 cut removes a better plan")
-----------------------------------------------------------------------------
TRobust ==
  LET x == E.x
      q == P.q
      wp == WorstProfit(q, P.e, x)
      bad == {c \in Corners(q, P.e) : REq(ProfitOf(c, x), wp)}
      kr == RSub(x[1], RLn(RSub(q.k, P.e[4])))
      sx == RMul(tol, SizeX(x))
      c0 == CHOOSE c \in Corners(q, P.e) : REq(ProfitOf(c, x), wp)
      ps == RAdd(1, RAdd(Revenue(c0, x), Cost(c0, x)))
      slack == RMul(tol, ps)
      zero == \E i \in 1..2 : REq(x[i], 0)
  IN
  IF E.val = "none"
  THEN /\ Must(RLt(RNeg(sx), kr) \/ RLt(wp, RAdd(E.gamma, slack)), "C19 rejected although robustly admissible")
       /\ Must(RLt(0, E.b), "C19 constraint not violated at the point")
       /\ Must(Keeps(E.g, E.b, x, LAMBDA y : RobustlyAdmissible(q, P.e, y, E.gamma)), "C19 cut removes a robustly better plan")
  ELSE /\ Must(RLe(kr, sx), "C19 accepted beyond the reduced limit")
       /\ Must(\A c \in Corners(q, P.e) : RLe(RSub(E.gamma, slack), ProfitOf(c, x)), "C19 accepted although a scenario earns less")
       /\ Must(Close(E.val, wp, 1, slack), "C19 value is not the worst case")
       /\ Must(REq(E.b, 0), "C19 cut at an accepted point is not central")
       /\ Must(Keeps(E.g, E.b, x, LAMBDA y : RobustlyAdmissible(q, P.e, y, wp)), "C19 cut removes a robustly better plan")
       /\ ~zero => Must(\E c \in bad : NearG(E.g, G2(c, x, wp)), "C19 direction of the central cut")
-----------------------------------------------------------------------------
\* cut of the plan d, given relative to the centre x:  offset = own offset + g.(x - d)
Moved(b, g, x, d, sign) == RAdd(b, RMul(sign, RAdd(RMul(g[1], RSub(x[1], d[1])), RMul(g[2], RSub(x[2], d[2])))))
TDiscrete ==
  LET q == P.q
      x == E.x
      gam == E.gamma
      f1 == F1(q, x)
      f2 == F2(q, x, gam)
      sx == RMul(tol, SizeX(x))
      own == E.val = "none" /\ E.at = x       \* answered for the continuous point itself
      n == E.plan                             \* the reported plan, as integers
      d == E.at
      isInt == \A i \in 1..2 : RLe(1, n[i]) /\ Near(d[i], RLn(n[i]), d)
      pr == ProfitOf(q, d)
      ps == RAdd(1, RAdd(Revenue(q, d), Cost(q, d)))
      sd == RMul(tol, SizeX(d))
      good(sign) == IF E.val # "none" THEN NearG(E.g, G2(q, d, pr)) /\ Near(E.b, Moved(0, E.g, x, d, sign), x)
                    ELSE \/ RLt(RNeg(sd), F1(q, d)) /\ NearG(E.g, G1) /\ Near(E.b, Moved(F1(q, d), E.g, x, d, sign), x)
                         \/ RLt(RNeg(sd), F2(q, d, gam)) /\ NearG(E.g, G2(q, d, gam)) /\ Near(E.b, Moved(F2(q, d, gam), E.g, x, d, sign), x)
      cutok == IF good(1) THEN TRUE
               ELSE IF good(-1) THEN Must(FALSE, "KNOWN C20 offset of a cut at the rounded plan has the sign of the shift reversed")
               ELSE Must(FALSE, "C20 cut does not belong to the rounded plan")
      outside == RLt(sx, f1) \/ RLt(sx, f2)    \* certainly not admissible
      inside == RLt(f1, RNeg(sx)) /\ RLt(f2, RNeg(sx))
  IN
  /\ Must(E.more = ~E.retry, "C20 alternatives")
  /\ (~E.retry /\ outside) => Must(own, "C20 point not admissible, but not answered with its own cut")
  /\ (~E.retry /\ inside) => Must(~own \/ (isInt /\ E.at = x), "C20 admissible point not rounded")
  /\ IF ~E.retry /\ own /\ ~inside
     THEN /\ Must(RLt(0, E.b), "C20 own cut not violated at the point")
          /\ Must(IsCut1(q, x, E.g, E.b) \/ IsCut2(q, x, gam, E.g, E.b), "C20 own cut is not that of the point")
          /\ plan' = plan
     ELSE /\ Must(isInt, "C20 reported plan is not a positive integer plan")
          /\ IF E.retry THEN plan # <<>> => Must(d = plan, "C20 retry evaluates another plan")
             ELSE LET y == Y(x) IN Must(IsRounding(y[1], n[1]) /\ IsRounding(y[2], n[2]), "C20 plan is not the rounded point")
          /\ E.val # "none" => /\ Must(RLe(F1(q, d), sd), "C20 value reported for a plan beyond the limit")
                               /\ Must(Close(E.val, pr, tol, ps), "C20 value is not the profit of the plan")
                               /\ Must(RLe(gam, RAdd(E.val, RMul(tol, ps))), "C20 value below the current one")
          /\ E.val = "none" => Must(RLt(RNeg(sd), F1(q, d)) \/ RLt(RNeg(sd), F2(q, d, gam)), "C20 admissible plan without a value")
          /\ cutok
          /\ plan' = IF E.retry THEN plan ELSE d
-----------------------------------------------------------------------------
Init == l = 1 /\ plan = <<>>
Next ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ IF E.ev = "new" THEN plan' = <<>>
        ELSE IF E.ev = "end" THEN Must(E.same, P.tag \o "parameters given by the user were altered") /\ plan' = <<>>
        ELSE IF E.err # "" THEN Must(FALSE, P.tag \o "raised " \o E.err) /\ UNCHANGED plan
        ELSE IF E.ev = "discrete" THEN TDiscrete
        ELSE /\ UNCHANGED plan
             /\ IF E.ev = "plain" THEN TPlain ELSE IF E.ev = "feas" THEN TFeas ELSE TRobust
  \/ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintT(<<"CONSUMED", Len(Trace)>>) /\ UNCHANGED plan
=============================================================================
