-------------------------------- MODULE CGModel --------------------------------
(* Every small integer system: finite termination of the exact iteration, and    *)
(* the systems written out to be solved by the real solver.                      *)
EXTENDS CG, Json, CSV, IOUtils
CONSTANTS N, Hi, Bs
VARIABLES A, b, x0, s
vars == <<A, b, x0, s>>
Pairs == {p \in (1..N) \X (1..N) : p[1] <= p[2]}
Mk(f) == Force([i \in 1..N |-> Force([j \in 1..N |-> f[<<IF i < j THEN i ELSE j, IF i < j THEN j ELSE i>>]])])
Fs == {f \in [Pairs -> -2..Hi] : \A i \in 1..N : f[<<i, i>>] > 0}
Init == /\ \E f \in Fs : A = Mk(f) /\ PDef(Mk(f))
        /\ b \in [1..N -> Bs] /\ x0 \in {[i \in 1..N |-> 0], [i \in 1..N |-> i - 2]}
        /\ s = Start(A, b, x0)
Small(r) == RLe(RDot(r, r), "1e-60")
Next == ~Small(s.r) /\ s' = StepCG(A, s) /\ UNCHANGED <<A, b, x0>>
Spec == Init /\ [][Next]_vars
Finite == s.k <= N
Consistent == \A i \in 1..N : Close(RSub(b[i], MulMV(A, s.x)[i]), s.r[i], "1e-40", 1)
Emit == Small(s.r) => CSVWrite("%1$s", <<ToJson([A |-> A, b |-> b, x0 |-> x0, k |-> s.k])>>, IOEnv.OUT)
=============================================================================
