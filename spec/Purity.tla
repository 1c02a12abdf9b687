-------------------------------- MODULE Purity --------------------------------
(* Caller-owned arrays under library calls.                                      *)
(* State: the contents of every array the caller holds (shared by all calls,     *)
(* including the best points runs have returned, "given") and the result each call gave *)
(* the first time.  A call may read the arrays and return something; it may not  *)
(* change any of them, hence the same call gives the same result again.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES l, own, first
vars == <<l, own, first>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Must(p, c) == IF p THEN TRUE ELSE PrintT(<<"FAIL", l, c>>)
Changed(r, s) == {n \in DOMAIN r : n \in DOMAIN s /\ r[n] # s[n]}
Init == l = 1 /\ own = [none |-> ""] /\ first = [none |-> ""]
TCall ==
  LET bad == Changed(own @@ E.given, E.after) IN
  /\ Must(bad = {}, E.op \o " changed a caller's array: " \o ToString(bad))
  /\ Must(E.op \notin DOMAIN first \/ first[E.op] = E.res, E.op \o " gives another result the second time")
  /\ own' = E.after
  /\ first' = IF E.op \in DOMAIN first THEN first ELSE first @@ (E.op :> E.res)
Next ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ IF E.ev = "new" THEN own' = E.after /\ first' = [none |-> ""] ELSE TCall
  \/ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintT(<<"CONSUMED", Len(Trace)>>) /\ UNCHANGED <<own, first>>
=============================================================================
