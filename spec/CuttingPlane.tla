---------------------------- MODULE CuttingPlane ----------------------------
(***************************************************************************)
(* The three cutting-plane loops as one transition system.                 *)
(*                                                                         *)
(*   mode "feas"   find a point the oracle accepts                         *)
(*   mode "optim"  improve an objective value                              *)
(*   mode "optq"   the same over discrete points, with retries             *)
(*                                                                         *)
(* The environment is the user's oracle and the search space: the answer   *)
(* of the oracle, the status of an update and the size the space reports   *)
(* afterwards are chosen freely in every step.  The centre of the space is *)
(* represented by a version number: a successful update changes it (in     *)
(* place, as the real spaces do), any other leaves it alone.               *)
(*                                                                         *)
(* One action per interaction, in the order of the implementation:         *)
(*    Ask -> (Accept | Update) -> (Stop | Continue),  Exhaust              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Modes,      \* subset of {"feas", "optim", "optq"}
          Budgets,    \* possible values of max_iters
          Gammas,     \* objective values an improving answer may report
          Gamma0,     \* initial objective value
          Statuses,   \* outcomes of an update
          Sizes,      \* size after an update, relative to the tolerance
          XQs,        \* how the oracle hands out its evaluation point
          None        \* "no value" for objective values and points (a model value)


VARIABLES
  mode, budget,       \* fixed by Init
  pc,                 \* "ask", "update", "check", "done"
  iter,               \* completed iterations
  xc,                 \* version of the space's centre
  gamma, best,        \* best value, and version of the best point (None: none)
  retry,              \* optq: the oracle is asked to retry
  ans,                \* the oracle's last answer
  st, size,           \* status of the last update, size reported after it
  hist,               \* every interaction so far, oldest first
  result              \* [x, gamma, niter] once pc = "done"

vars == <<mode, budget, pc, iter, xc, gamma, best, retry, ans, st, size, hist, result>>

NoAns == [accept |-> FALSE, g1 |-> None, alt |-> FALSE, xq |-> "none"]
NoRes == [x |-> None, gamma |-> None, niter |-> None]

Answers ==
  CASE mode = "feas"  -> {[NoAns EXCEPT !.accept = a] : a \in BOOLEAN}
    [] mode = "optim" -> {[NoAns EXCEPT !.g1 = g] : g \in Gammas \cup {None}}
    [] mode = "optq"  -> {[accept |-> FALSE, g1 |-> g, alt |-> a, xq |-> q] :
                            g \in Gammas, a \in BOOLEAN, q \in XQs}
                         \cup {[accept |-> FALSE, g1 |-> None, alt |-> a, xq |-> "fresh"] : a \in BOOLEAN}

Init ==
  /\ mode \in Modes /\ budget \in Budgets
  /\ pc = IF budget = 0 THEN "exhaust" ELSE "ask"
  /\ iter = 0 /\ xc = 0 /\ gamma = Gamma0 /\ best = None /\ retry = FALSE
  /\ ans = NoAns /\ st = "none" /\ size = "none" /\ hist = <<>> /\ result = NoRes

\* The oracle is asked about the current centre with the latest value.
Ask ==
  /\ pc = "ask"
  /\ \E a \in Answers :
       /\ ans' = a
       /\ IF a.g1 # None THEN gamma' = a.g1 /\ best' = xc ELSE UNCHANGED <<gamma, best>>
       /\ IF a.accept
          THEN /\ pc' = "done"
               /\ result' = [x |-> xc, gamma |-> None, niter |-> iter]
          ELSE pc' = "update" /\ UNCHANGED result
       /\ hist' = Append(hist, [x |-> xc, gamma |-> gamma, retry |-> retry, ans |-> a,
                                kind |-> IF a.accept THEN "none"
                                         ELSE IF mode = "optq" THEN "q"
                                         ELSE IF a.g1 # None THEN "central" ELSE "bias",
                                st |-> "none", size |-> "none"])
  /\ UNCHANGED <<mode, budget, iter, xc, retry, st, size>>

\* The cut of that answer is applied once; the space answers.
Update ==
  /\ pc = "update"
  /\ \E s \in Statuses, z \in Sizes :
       /\ ~(mode = "optq" /\ s = "Unknown")
       /\ st' = s /\ size' = z
       /\ xc' = IF s = "Success" THEN xc + 1 ELSE xc
       /\ hist' = [hist EXCEPT ![Len(hist)].st = s, ![Len(hist)].size = z]
  /\ pc' = "check"
  /\ UNCHANGED <<mode, budget, iter, gamma, best, retry, ans, result>>

StopNow ==
  \/ size = "below"
  \/ mode # "optq" /\ st # "Success"
  \/ mode = "optq" /\ st = "NoSoln"
  \/ mode = "optq" /\ st = "NoEffect" /\ ~ans.alt

Stop ==
  /\ pc = "check" /\ StopNow
  /\ pc' = "done"
  /\ result' = IF mode = "feas" THEN [x |-> None, gamma |-> None, niter |-> iter]
               ELSE [x |-> best, gamma |-> gamma, niter |-> iter]
  /\ UNCHANGED <<mode, budget, iter, xc, gamma, best, retry, ans, st, size, hist>>

Continue ==
  /\ pc = "check" /\ ~StopNow
  /\ iter' = iter + 1
  /\ retry' = (mode = "optq" /\ st = "NoEffect")
  /\ pc' = IF iter + 1 = budget THEN "exhaust" ELSE "ask"
  /\ UNCHANGED <<mode, budget, xc, gamma, best, ans, st, size, hist, result>>

Exhaust ==
  /\ pc = "exhaust"
  /\ pc' = "done"
  /\ result' = IF mode = "feas" THEN [x |-> None, gamma |-> None, niter |-> budget]
               ELSE [x |-> best, gamma |-> gamma, niter |-> budget]
  /\ UNCHANGED <<mode, budget, iter, xc, gamma, best, retry, ans, st, size, hist>>

Next == Ask \/ Update \/ Stop \/ Continue \/ Exhaust
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* The properties, stated on the interaction history alone.                *)

Done == pc = "done"
H(i) == hist[i]
Last == hist[Len(hist)]
Improving == {i \in 1..Len(hist) : H(i).ans.g1 # None}
LastImproving == CHOOSE i \in Improving : \A j \in Improving : j <= i
Refused(i) == IF mode = "optq"
              THEN H(i).st = "NoSoln" \/ (H(i).st = "NoEffect" /\ ~H(i).ans.alt)
              ELSE H(i).st # "Success"

\* C01
FeasSound ==
  Done /\ mode = "feas" =>
    /\ result.x # None <=> (hist # <<>> /\ Last.ans.accept)
    /\ result.x # None => result.x = Last.x
    /\ result.x = None => \/ Len(hist) = budget
                          \/ Last.st # "Success"
                          \/ Last.size = "below"
    /\ \A i \in 1..Len(hist) : H(i).ans.accept => i = Len(hist)

\* C02, C03: last improvement, with the centre version it was reported at
BestSoFar ==
  Done /\ mode # "feas" =>
    IF Improving = {} THEN result.x = None /\ result.gamma = Gamma0
    ELSE result.gamma = H(LastImproving).ans.g1 /\ result.x = H(LastImproving).x

LatestGamma ==
  \A i \in 1..Len(hist) :
    LET imp == {j \in Improving : j < i}
    IN  H(i).gamma = IF imp = {} THEN Gamma0
                     ELSE H(CHOOSE j \in imp : \A k \in imp : k <= j).ans.g1

KindOfCut == \A i \in 1..Len(hist) :
    ~H(i).ans.accept => H(i).kind = IF mode = "optq" THEN "q"
                                    ELSE IF mode = "optim" /\ i \in Improving THEN "central" ELSE "bias"

\* C03
RetryProtocol ==
  \A i \in 1..Len(hist) :
    H(i).retry <=> (mode = "optq" /\ i > 1 /\ H(i-1).st = "NoEffect" /\ H(i-1).ans.alt)

\* the centre is the number of successful updates before the query
CurrentCentre ==
  \A i \in 1..Len(hist) :
    H(i).x = Len(SelectSeq(SubSeq(hist, 1, i - 1), LAMBDA r : r.st = "Success"))

\* C04
StopsFirst ==
  /\ Len(hist) <= budget
  /\ \A i \in 1..(Len(hist) - 1) : ~Refused(i) /\ H(i).size # "below"
Counts ==
  Done =>
    /\ result.niter = budget <=> ~(hist # <<>> /\ (Last.ans.accept \/ Refused(Len(hist)) \/ Last.size = "below"))
    /\ result.niter < budget => result.niter = Len(hist) - 1
    /\ result.niter = budget => Len(hist) = budget

Terminates == <>Done
=============================================================================
