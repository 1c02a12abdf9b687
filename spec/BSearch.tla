------------------------------- MODULE BSearch -------------------------------
(***************************************************************************)
(* Binary search over a bracket (lower, upper) with a yes/no oracle.       *)
(* Numbers are exact rationals (canonical strings); the bracket's number   *)
(* type is "int" (conversion truncates towards zero) or "real" (exact).    *)
(* One action per probe: the answer is chosen freely by the environment.   *)
(***************************************************************************)
EXTENDS Rat, TLC

CONSTANTS Brackets,   \* set of <<type, lower, upper>>
          Tols, Budgets

VARIABLES type, lo0, up0, tol, budget,   \* the call
          lower, upper, n, probes, pc, result

vars == <<type, lo0, up0, tol, budget, lower, upper, n, probes, pc, result>>

Trunc(r) == IF RLe(0, r) THEN RFloor(r) ELSE -RFloor(RNeg(r))
Conv(r)  == IF type = "int" THEN RStr(Trunc(r)) ELSE RStr(r)

Half  == RDiv(RSub(upper, lower), 2)
Probe == Conv(RAdd(lower, Half))

Init ==
  /\ \E b \in Brackets : type = b[1] /\ lo0 = b[2] /\ up0 = b[3]
  /\ tol \in Tols /\ budget \in Budgets
  /\ lower = lo0 /\ upper = up0 /\ n = 0 /\ probes = <<>> /\ pc = "run" /\ result = "none"

Stop == n = budget \/ RLt(Half, tol)

Step ==
  /\ pc = "run" /\ ~Stop
  /\ \E yes \in BOOLEAN :
       /\ probes' = Append(probes, [g |-> Probe, yes |-> yes])
       /\ IF yes THEN upper' = Probe /\ UNCHANGED lower ELSE lower' = Probe /\ UNCHANGED upper
  /\ n' = n + 1
  /\ UNCHANGED <<type, lo0, up0, tol, budget, pc, result>>

Finish ==
  /\ pc = "run" /\ Stop
  /\ pc' = "done" /\ result' = upper
  /\ UNCHANGED <<type, lo0, up0, tol, budget, lower, upper, n, probes>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
Accepted == {i \in 1..Len(probes) : probes[i].yes}
Bracket == RLe(lo0, lower) /\ RLe(lower, upper) /\ RLe(upper, up0)
\* the result is the smallest accepted probe, or the initial upper end
Smallest ==
  pc = "done" =>
    /\ \A i \in Accepted : RLe(result, probes[i].g)
    /\ IF Accepted = {} THEN result = up0 ELSE \E i \in Accepted : result = probes[i].g
\* every rejected probe lies at or below the result
Separates == pc = "done" => \A i \in 1..Len(probes) : ~probes[i].yes => RLe(probes[i].g, result)
\* the real bracket is exactly halved by every probe
Halves == type = "real" => REq(RMul(RSub(upper, lower), RPow(2, n)), RSub(up0, lo0))
\* for a monotone predicate (yes iff probe >= th) the threshold stays in the bracket
Count == pc = "done" => Len(probes) = n /\ n <= budget /\ (n < budget => RLt(Half, tol))
Terminates == <>(pc = "done")
=============================================================================
