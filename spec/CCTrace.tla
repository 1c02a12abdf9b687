------------------------------- MODULE CCTrace -------------------------------
(* Recorded calls of every formulation of the cut coefficients, judged        *)
(* against the exact ones.  A record carries one cut and the answers of all   *)
(* formulations that apply to it.                                             *)
EXTENDS CutCalc, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Must(p, c) == IF p THEN TRUE ELSE PrintT(<<"FAIL", l, c>>)
tol == "1e-8"
Tau == RSqrt(E.tsq)
One == E.b1 = "none"
Want == IF E.kind = "central" THEN CentralCoef(E.n, Tau)
        ELSE IF One THEN BiasCoef(E.n, E.b0, Tau)
        ELSE ParCoef(E.n, E.b0, E.b1, E.tsq)
T1x == IF One THEN -1 ELSE RNeg(RDiv(E.b1, Tau))
T2x == RNeg(RDiv(E.b0, Tau))
Init == l = 1
Next ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ LET w == Want IN
        \A i \in 1..Len(E.ans) :
          LET a == E.ans[i] IN
          IF a.err # "" THEN Must(FALSE, a.f \o " raised " \o a.err)
          ELSE /\ Must(CoefClose(a, w, Tau, tol), a.f \o " does not give the coefficients of the cut")
               /\ Must(Touches(E.n, a, T1x, T2x, Tau, "1e-6"), a.f \o " does not touch the kept part at its boundary")
               /\ Must(CoefClose(a, E.ans[1], Tau, tol), a.f \o " disagrees with " \o E.ans[1].f)
  \/ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintT(<<"CONSUMED", Len(Trace)>>)
=============================================================================
