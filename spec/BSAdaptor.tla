------------------------------ MODULE BSAdaptor ------------------------------
(***************************************************************************)
(* The binary-search adaptor: for each probed value, a feasibility          *)
(* subproblem on a copy of the adaptor's space.                             *)
(*                                                                          *)
(* A space is a centre and a shape (integers): a successful cut moves the   *)
(* centre by the shape and halves the shape, so a subproblem that does not  *)
(* start from the adaptor's own shape is visible in the points it visits.   *)
(* Actions: Begin (pass the value, copy the space), Cut, and one action per *)
(* way a subproblem ends (found, refused, too small, budget).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Values,    \* values probed
          MaxProbes, Budgets, Shape0, Centre0

VARIABLES budget, centre, shape,        \* the adaptor
          omega,                        \* the value the oracle was last given
          sub,                          \* the subproblem's space, or NoSub
          k,                            \* cuts applied in it
          log, pc

vars == <<budget, centre, shape, omega, sub, k, log, pc>>
NoSub == [c |-> 0, s |-> 0]

Init == /\ budget \in Budgets /\ centre = Centre0 /\ shape = Shape0 /\ omega = -1
        /\ sub = NoSub /\ k = 0 /\ log = <<>> /\ pc = "idle"

Begin == /\ pc = "idle" /\ Len(log) < MaxProbes
         /\ \E v \in Values : omega' = v
                 /\ log' = Append(log, [v |-> v, queries |-> <<>>, cuts |-> 0, end |-> "open", yes |-> FALSE, x |-> centre])
         /\ sub' = [c |-> centre, s |-> shape]
         /\ k' = 0
         /\ pc' = IF budget = 0 THEN "spent" ELSE "ask"
         /\ UNCHANGED <<budget, centre, shape>>

P == Len(log)
Ask == log[P].queries

\* the oracle accepts the subproblem's centre
Found == /\ pc = "ask"
         /\ centre' = sub.c
         /\ log' = [log EXCEPT ![P].queries = Append(@, sub.c), ![P].end = "found", ![P].yes = TRUE, ![P].x = sub.c]
         /\ pc' = "idle" /\ UNCHANGED <<budget, shape, omega, sub, k>>

\* it reports a cut, which succeeds
Cut == /\ pc = "ask"
       /\ sub' = [c |-> sub.c + sub.s, s |-> sub.s \div 2]
       /\ k' = k + 1
       /\ log' = [log EXCEPT ![P].queries = Append(@, sub.c), ![P].cuts = k + 1]
       /\ pc' = IF k + 1 = budget THEN "spent" ELSE "ask"
       /\ UNCHANGED <<budget, centre, shape, omega>>

\* it reports a cut, which is refused ("refused") or leaves too small a space ("small")
Give == /\ pc = "ask"
        /\ \E e \in {"refused", "small"} :
             log' = [log EXCEPT ![P].queries = Append(@, sub.c), ![P].end = e]
        /\ pc' = "idle" /\ UNCHANGED <<budget, centre, shape, omega, sub, k>>

Spent == /\ pc = "spent"
         /\ log' = [log EXCEPT ![P].end = "budget"]
         /\ pc' = "idle" /\ UNCHANGED <<budget, centre, shape, omega, sub, k>>

Next == Begin \/ Found \/ Cut \/ Give \/ Spent
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* the adaptor keeps its shape; its centre is the point of the last success
ShapeKept == shape = Shape0
Successes == {i \in 1..Len(log) : log[i].yes}
BestPoint == pc = "idle" =>
   centre = IF Successes = {} THEN Centre0
            ELSE log[CHOOSE i \in Successes : \A j \in Successes : j <= i].x
\* failures change nothing
FailKeeps == [][pc' = "idle" /\ pc # "idle" /\ ~log'[Len(log')].yes => centre' = centre]_vars
\* every subproblem starts at the adaptor's centre of that moment
StartsThere == \A i \in 1..Len(log) : log[i].queries # <<>> =>
   log[i].queries[1] = (LET S == {j \in Successes : j < i} IN
                        IF S = {} THEN Centre0 ELSE log[CHOOSE j \in S : \A m \in S : m <= j].x)
ValuePassed == pc # "idle" => omega = log[P].v
=============================================================================
