------------------------------- MODULE BSTrace -------------------------------
(* Recorded runs of the real binary search, including brackets whose          *)
(* midpoints are not representable (a probe may be off by one rounding) and   *)
(* thousands of probes.                                                       *)
EXTENDS BSearch, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Must(p, c) == IF p THEN TRUE ELSE PrintT(<<"FAIL", l, c>>)
Scale == RMax(RAbs(lower), RAbs(upper))
\* the half-width of the code is rounded: a tie within rounding may go either way
Near == Close(Half, tol, "1e-15", RMax(Half, tol))
\* g (an integer) is m truncated towards zero
IsTrunc(g, m) == IF RLe(0, m) THEN RLe(g, m) /\ RLt(m, RAdd(g, 1)) ELSE RLe(m, g) /\ RLt(RSub(g, 1), m)
ProbeOk(g) == IF type = "int" THEN IsTrunc(g, RAdd(lower, Half)) \/ (RLt("4503599627370496", Scale) /\ Close(g, RAdd(lower, Half), "1e-15", Scale))
              ELSE Close(g, RAdd(lower, Half), "2.3e-16", Scale)
TInit == /\ type = "real" /\ lo0 = "0" /\ up0 = "0" /\ tol = "0" /\ budget = 0 /\ lower = "0" /\ upper = "0"
         /\ n = 0 /\ probes = <<>> /\ pc = "idle" /\ result = "none" /\ l = 1
TNext ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ \/ /\ E.ev = "call"
           /\ type' = E.type /\ lo0' = E.lo /\ up0' = E.up /\ tol' = E.tol /\ budget' = E.budget
           /\ lower' = E.lo /\ upper' = E.up /\ n' = 0 /\ pc' = "run" /\ UNCHANGED <<probes, result>>
        \/ /\ E.ev = "probe"
           /\ Must(~Stop \/ (n < budget /\ Near), "went on after the stop condition")
           /\ Must(ProbeOk(E.g), "probe is not the midpoint of the bracket")
           /\ Must(E.typed, "probe is not of the bracket's type")
           /\ IF E.yes THEN upper' = E.g /\ UNCHANGED lower ELSE lower' = E.g /\ UNCHANGED upper
           /\ n' = n + 1 /\ UNCHANGED <<type, lo0, up0, tol, budget, probes, pc, result>>
        \/ /\ E.ev = "ret"
           /\ Must(Stop \/ Near, "stopped without a reason")
           /\ Must(REq(E.x, upper), "result is not the upper end")
           /\ Must(E.typed, "result is not of the bracket's type")
           /\ Must(E.n = n, "count is not the number of probes")
           /\ pc' = "done" /\ UNCHANGED <<type, lo0, up0, tol, budget, lower, upper, n, probes, result>>
        \/ /\ E.ev = "err" /\ Must(FALSE, "raised " \o E.what)
           /\ UNCHANGED <<type, lo0, up0, tol, budget, lower, upper, n, probes, pc, result>>
  \/ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintT(<<"CONSUMED", Len(Trace)>>) /\ UNCHANGED vars
=============================================================================
