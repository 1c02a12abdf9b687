------------------------------- MODULE SSLock -------------------------------
(* Lock-step histories of all four representations (plain/factored, deferred/ *)
(* immediate scaling), fed the same cuts: the same statuses, centres, size    *)
(* measures and ellipsoids after every step.                                  *)
EXTENDS SearchSpace, Json, IOUtils
VARIABLES l, P
vars == <<l, P>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Must(p, c) == IF p THEN TRUE ELSE PrintT(<<"FAIL", l, c>>)
tol == "1e-6"
V(i) == E.v[i]
Others == 2..Len(E.v)
Sc(i) == RSqrt(RAbs(V(1).P[i][i]))
Init == l = 1 /\ P = <<>>
Next ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1 /\ P' = [k \in 1..Len(E.v) |-> V(k).P]
     /\ Must(\A k \in Others : V(k).st = V(1).st, "C11 statuses differ")
     /\ Must(\A k \in 1..Len(E.v) : \A i \in 1..Len(V(k).x) : RIsNum(V(k).x[i]), "C11 centre is not a number")
     /\ Must(\A k \in Others : \A i \in 1..Len(V(1).x) : Close(V(k).x[i], V(1).x[i], tol, Sc(i)), "C11 centres differ")
     /\ Must(\A k \in Others : \A i, j \in 1..Len(V(1).x) :
                 RLe(RAbs(RSub(V(k).P[i][j], V(1).P[i][j])), RMul(tol, RMul(Sc(i), Sc(j)))), "C11 shapes differ")
     /\ E.ev = "cut" /\ V(1).st \in {"Success", "NoSoln", "NoEffect"} =>
           /\ Must(\A k \in Others : Close(V(k).tsq, V(1).tsq, tol, V(1).tsq), "C11 size measures differ")
           /\ Must(\A k \in 1..Len(E.v) : LET e == Quad(P[k], E.g) IN Close(V(k).tsq, e, tol, e),
                   "C11 size measure is not the squared extent along the gradient")
     /\ E.ev = "cut" /\ ~IsZeroV(E.g) => Must(V(1).st \in {"Success", "NoSoln", "NoEffect"}, "C11 raised " \o V(1).st)
  \/ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintT(<<"CONSUMED", Len(Trace)>>) /\ UNCHANGED P
=============================================================================
