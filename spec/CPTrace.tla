------------------------------- MODULE CPTrace -------------------------------
(***************************************************************************)
(* Recorded runs of the real loops (real or scripted spaces and oracles)   *)
(* checked step by step against CuttingPlane.  One event per interaction:  *)
(*   run  the call              ask  a query and its answer                *)
(*   upd  an update             end  the return                            *)
(* Concrete centres are strings (the exact floating-point contents);       *)
(* content[v+1] is the content of centre version v of the specification.   *)
(* The checks are total: a mismatch prints FAIL with the clause, and the   *)
(* state follows the record.                                               *)
(***************************************************************************)
EXTENDS CuttingPlane, Json, IOUtils

VARIABLES l, content, okay
tvars == <<vars, l, content, okay>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Val(s) == IF s = "none" THEN None ELSE s

Fail(c) == PrintT(<<"FAIL", l, c>>)
Must(p, c) == IF p THEN TRUE ELSE Fail(c)

TInit ==
  /\ mode = "none" /\ budget = 0 /\ pc = "idle" /\ iter = 0 /\ xc = 0 /\ gamma = None /\ best = None
  /\ retry = FALSE /\ ans = NoAns /\ st = "none" /\ size = "none" /\ hist = <<>> /\ result = NoRes
  /\ l = 1 /\ content = <<>> /\ okay = TRUE

TRun ==
  /\ E.ev = "run"
  /\ mode' = E.mode /\ budget' = E.budget /\ pc' = (IF E.budget = 0 THEN "exhaust" ELSE "ask")
  /\ iter' = 0 /\ xc' = 0 /\ gamma' = Val(E.gamma) /\ best' = None /\ retry' = FALSE
  /\ ans' = NoAns /\ st' = "none" /\ size' = "none" /\ hist' = <<>> /\ result' = NoRes
  /\ content' = <<E.x>> /\ okay' = TRUE

\* the specification's internal steps between two recorded interactions
\* (Continue, then Ask) are composed here
Cont == pc = "check" /\ ~StopNow
Iter1 == IF Cont THEN iter + 1 ELSE iter
Retry1 == IF Cont THEN mode = "optq" /\ st = "NoEffect" ELSE retry

TAsk ==
  /\ E.ev = "ask"
  /\ Must(pc # "check" \/ ~StopNow, "C04 went on after a stop condition")
  /\ Must(pc \in {"ask", "check"}, "C04 asked out of turn")
  /\ Must(Iter1 < budget, "C04 asked beyond the budget")
  /\ Must(E.x = content[xc + 1], "C01 C02 C03 not the current centre")
  /\ mode # "feas" => Must(E.gamma = gamma, "C02 C03 not the latest value")
  /\ mode = "optq" => Must(E.retry = Retry1, "C03 retry flag")
  /\ iter' = Iter1 /\ retry' = Retry1
  /\ ans' = [accept |-> E.accept, g1 |-> Val(E.g1), alt |-> E.alt, xq |-> "fresh"]
  /\ gamma' = IF E.g1 = "none" THEN gamma ELSE E.g1
  /\ best' = IF E.g1 = "none" THEN best ELSE IF mode = "optq" THEN E.xq ELSE E.x
  /\ pc' = IF E.accept THEN "accepted" ELSE "update"
  /\ result' = IF E.accept THEN [x |-> E.x, gamma |-> None, niter |-> Iter1] ELSE result
  /\ UNCHANGED <<mode, budget, xc, st, size, hist, content, okay>>

TUpd ==
  /\ E.ev = "upd"
  /\ Must(pc = "update", "C01 C02 C03 a cut applied out of turn")
  /\ Must(E.kind = (IF mode = "optq" THEN "q" ELSE IF ans.g1 # None THEN "central" ELSE "bias"),
          "C01 C02 C03 kind of cut")
  /\ Must(E.cutsame, "C01 C02 C03 cut changed on the way")
  /\ st' = E.st /\ size' = E.size
  /\ xc' = xc + 1
  /\ content' = Append(content, E.x)
  /\ pc' = "check"
  /\ UNCHANGED <<mode, budget, iter, gamma, best, retry, ans, hist, result, okay>>

ExpResult ==
  IF pc = "accepted" THEN result
  ELSE IF pc = "check" /\ StopNow
       THEN [x |-> IF mode = "feas" THEN None ELSE best,
             gamma |-> IF mode = "feas" THEN None ELSE gamma, niter |-> iter]
  ELSE [x |-> IF mode = "feas" THEN None ELSE best,
        gamma |-> IF mode = "feas" THEN None ELSE gamma, niter |-> budget]

TEnd ==
  /\ E.ev = "end"
  /\ Must(pc \in {"accepted", "exhaust"} \/ (pc = "check" /\ (StopNow \/ iter + 1 = budget)),
          "C01 C04 stopped without a reason")
  /\ Must(Val(E.x) = ExpResult.x, "C01 C02 C03 returned point")
  /\ mode # "feas" => Must(E.gamma = ExpResult.gamma, "C02 C03 returned value")
  /\ Must(E.niter = ExpResult.niter, "C04 returned count")
  /\ pc' = "done"
  /\ UNCHANGED <<mode, budget, iter, xc, gamma, best, retry, ans, st, size, hist, result, content, okay>>

\* an exception of the code under test, or a call that did not come back
TErr ==
  /\ E.ev = "err"
  /\ Fail("C01 C02 C03 C04 raised " \o E.what)
  /\ pc' = "done"
  /\ UNCHANGED <<mode, budget, iter, xc, gamma, best, retry, ans, st, size, hist, result, content, okay>>

TNext ==
  \/ l <= Len(Trace) /\ l' = l + 1 /\ (TRun \/ TAsk \/ TUpd \/ TEnd \/ TErr)
  \/ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintT(<<"CONSUMED", Len(Trace)>>) /\ UNCHANGED <<vars, content, okay>>
=============================================================================
