------------------------------- MODULE InterTrace -------------------------------
(* Recorded interleavings: every step of instance 1 or 2 with its result; solo[i]  *)
(* are the results of instance i alone in a fresh interpreter.                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES l, pos
vars == <<l, pos>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
P == Trace[E.base]
Must(p, c) == IF p THEN TRUE ELSE PrintT(<<"FAIL", l, c>>)
Init == l = 1 /\ pos = <<0, 0>>
TStep == LET k == pos[E.i] + 1 IN
         /\ Must(k <= Len(P.solo[E.i]) /\ E.res = P.solo[E.i][k], E.kind \o " behaves differently next to " \o E.other)
         /\ pos' = [pos EXCEPT ![E.i] = k]
\* calls without options: budget and tolerance (a scripted space reports the sizes)
TDefault == /\ Must(E.iters = 2000 /\ E.asked = 2000, E.kind \o ": default budget is not 2000")
            /\ Must(E.stopped /\ E.at = 3, E.kind \o ": default tolerance is not 1e-20")
            /\ UNCHANGED pos
TOptions == /\ Must(E.same, E.kind \o " changed the caller's options")
            /\ Must(E.fresh, E.kind \o " changed the default options")
            /\ UNCHANGED pos
Next ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ IF E.ev = "new" THEN pos' = <<0, 0>> ELSE IF E.ev = "default" THEN TDefault ELSE IF E.ev = "options" THEN TOptions ELSE TStep
  \/ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintT(<<"CONSUMED", Len(Trace)>>) /\ UNCHANGED pos
=============================================================================
