------------------------------ MODULE BSATrace ------------------------------
(* Recorded probes of the real adaptor on real search spaces.  The record of  *)
(* a probe carries the adaptor's centre and shape observations before and     *)
(* after it, every query of the subproblem, the accepted point, and the       *)
(* outcome of the same subproblem solved directly on a copy of the space.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES l, centre, shape
vars == <<l, centre, shape>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Must(p, c) == IF p THEN TRUE ELSE PrintT(<<"FAIL", l, c>>)
Init == l = 1 /\ centre = "none" /\ shape = "none"
Next ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ \/ /\ E.ev = "new" /\ centre' = E.x /\ shape' = E.shape
        \/ /\ E.ev = "probe"
           /\ Must(\A i \in 1..Len(E.queries) : E.queries[i].g = E.g, "oracle asked without the probed value")
           /\ Must(Len(E.queries) = 0 \/ E.queries[1].x = centre, "subproblem does not start at the adaptor's centre")
           /\ Must(E.queries = E.solo_queries, "subproblem differs from the same subproblem solved alone")
           /\ Must(E.yes = (E.accepted # "none"), "answer is not whether a point was found")
           /\ Must(E.xafter = (IF E.yes THEN E.accepted ELSE centre), "centre after the probe")
           /\ Must(E.shapeafter = shape, "shape changed by a probe")
           /\ centre' = E.xafter /\ shape' = E.shapeafter
        \/ /\ E.ev = "err" /\ Must(FALSE, "raised " \o E.what) /\ UNCHANGED <<centre, shape>>
  \/ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintT(<<"CONSUMED", Len(Trace)>>) /\ UNCHANGED <<centre, shape>>
=============================================================================
