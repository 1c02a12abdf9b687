-------------------------------- MODULE CGTrace --------------------------------
(* Recorded calls of the real solver.                                            *)
EXTENDS CG, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Must(p, c) == IF p THEN TRUE ELSE PrintT(<<"FAIL", l, c>>)
NormInf(v) == RSum([i \in 1..Len(v) |-> RAbs(v[i])])
TSolve ==
  LET n == Len(E.b)
      res == Sub2(E.b, MulMV(E.A, E.x))
      sc == RAdd(NormInf(E.b), RMul(RAdd(1, NormInf(E.x)), E.big))     \* E.big: largest row sum
      slack == RMul("1e-11", sc)
      pd == PDef(E.A)
      nr == IF pd /\ E.spd THEN Norms(E.A, Start(E.A, E.b, E.x0), IF E.budget < n THEN E.budget ELSE n) ELSE <<>>
      above == RSq(RMul(E.tol, "1.001"))
      below == RSq(RMul(E.tol, "0.999"))
      \* no iterate within the budget is good enough / one clearly is
      never == Len(nr) = E.budget + 1 /\ \A i \in 1..Len(nr) : RLt(above, nr[i])
      reach == \E i \in 1..Len(nr) : RLt(nr[i], below)
  IN
  /\ Must(E.same, "arguments modified")
  /\ IF E.err = ""
     THEN /\ Must(Len(E.x) = n /\ RLe(RDot(res, res), RSq(RAdd(E.tol, slack))), "returned vector does not solve the system")
          /\ E.spd /\ pd /\ E.cond => Must(~never, "returned although no allowed iterate is within the tolerance")
     ELSE /\ Must(E.err \notin {"timeout"}, "did not come back")
          /\ E.spd /\ pd /\ E.cond /\ reach => Must(FALSE, "raised " \o E.err \o " although solvable within the budget")
Init == l = 1
Next ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1 /\ TSolve
  \/ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintT(<<"CONSUMED", Len(Trace)>>)
=============================================================================
