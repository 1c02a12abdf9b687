------------------------------- MODULE SSFlat -------------------------------
(* A first cut that leaves no width along its gradient: an equation (both     *)
(* hyperplanes of the slab coincide), or a tangent cut, which may be answered *)
(* either way; or hardly any width; or a cut that hardly misses the           *)
(* ellipsoid.  Recorded for all four representations from the same ball.     *)
EXTENDS SearchSpace, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Must(p, c) == IF p THEN TRUE ELSE PrintT(<<"FAIL", l, c>>)
tol == "1e-9"
TFlat ==
  LET n == Len(E.g)
      P == Force([i \in 1..n |-> Force([j \in 1..n |-> IF i = j THEN E.kap ELSE 0])])
      tau == RSqrt(Quad(P, E.g))
      t == RNeg(RDiv(E.b[1], tau))
      t1 == IF Len(E.b) = 1 \/ RLt(tau, E.b[2]) THEN -1 ELSE RNeg(RDiv(E.b[2], tau))
      q == Post(E.x0, P, E.g, tau, IF E.tangent THEN [c |-> -1, a2 |-> 0, b2 |-> 0] ELSE IF E.miss THEN [c |-> 0, a2 |-> 1, b2 |-> 1] ELSE MinVol(n, t1, t))
      V(k) == E.v[k]
      R == RSqrt(E.kap)
      done(k) == V(k).st = "Success"
  IN
  /\ \A k \in 1..Len(E.v) :
       /\ Must(V(k).st \in {"Success", "NoSoln", "NoEffect"} /\ V(k).st2 \in {"Success", "NoSoln", "NoEffect"}, "C10 C11 raised on a cut without width")
       /\ Must(V(k).st = V(1).st, "C11 statuses differ on a cut without width")
       /\ Must(E.miss => V(k).st = "NoSoln", "C10 a cut that misses the ellipsoid is not answered with no solution")
       /\ Must(E.tangent \/ E.miss \/ done(k), "C10 an equation or narrow cut that meets the ellipsoid is not answered with success")
       /\ Must(done(k) => \A i \in 1..n : Close(V(k).x[i], q.x[i], tol, R), "C07 C09 C11 centre after a cut without width")
       /\ Must(done(k) => \A d \in 1..Len(E.dirs) : LET w == Quad(q.P, E.dirs[d]) IN
                RLe(RSub(w, RMul("1e-7", RMul(E.kap, RDot(E.dirs[d], E.dirs[d])))), V(k).ext[d]), "C07 C11 kept points lost by a cut without width")
       /\ Must(done(k) => \A d \in 1..Len(E.dirs) : LET w == Quad(q.P, E.dirs[d]) IN
                RLe(V(k).ext[d], RAdd(w, RMul("1e-7", RMul(E.kap, RDot(E.dirs[d], E.dirs[d]))))), "C09 C11 extent after a cut without width")
       /\ Must(done(k) => \A i \in 1..n : RIsNum(V(k).x2[i]), "C07 C11 centre lost by a second cut along a direction without width")
       /\ Must(~done(k) => V(k).x = E.x0, "C10 refused cut moved the centre")
Init == l = 1
Next == \/ l <= Len(Trace) /\ TFlat /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ PrintT(<<"CONSUMED", l - 1>>) /\ l' = l + 1
=============================================================================
