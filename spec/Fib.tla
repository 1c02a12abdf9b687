---------------------------------- MODULE Fib ----------------------------------
(* The Fibonacci example.  Recorded: the values for 1, 2, 3, ... in order         *)
(* ("fib"), arguments below one ("bad"), and command-line calls ("cli") with the  *)
(* numbers printed.  State: the two last values and how many were seen.           *)
EXTENDS Rat, TLC, Json, IOUtils
VARIABLES l, a, b, k
vars == <<l, a, b, k>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Must(p, c) == IF p THEN TRUE ELSE PrintT(<<"FAIL", l, c>>)
RECURSIVE F(_, _, _)
F(n, u, v) == IF n = 1 THEN u ELSE F(n - 1, v, RAdd(u, v))
Init == l = 1 /\ a = 0 /\ b = 0 /\ k = 0
TFib == LET want == IF E.n <= 2 THEN 1 ELSE RAdd(a, b) IN
        /\ Must(E.n = k + 1, "machinery: values not in order")
        /\ Must(E.err = "" /\ E.int /\ REq(E.v, want), "fib is not the sum of its predecessors")
        /\ a' = RStr(b) /\ b' = RStr(want) /\ k' = k + 1
Next ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ IF E.ev = "fib" THEN TFib
        ELSE /\ UNCHANGED <<a, b, k>>
             /\ IF E.ev = "far" THEN Must(E.err = "" /\ E.int /\ REq(E.v, F(E.n, 1, 1)), "fib of a large argument")
                ELSE IF E.ev = "bad" THEN Must(E.err # "" /\ E.err # "timeout", "argument below one not rejected")
                ELSE IF E.ev = "badcli" THEN Must(E.err # "", "command line accepts a wrong argument")
                ELSE Must(E.err = "" /\ \E i \in 1..Len(E.nums) : REq(E.nums[i], F(E.n, 1, 1)), "command line does not print the number")
  \/ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintT(<<"CONSUMED", Len(Trace)>>) /\ UNCHANGED <<a, b, k>>
=============================================================================
