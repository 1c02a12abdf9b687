------------------------------- MODULE SSTrace -------------------------------
(***************************************************************************)
(* Recorded histories of one real search space, judged step by step.       *)
(* new: centre and shape (observed through the size measure of trial cuts  *)
(*      on copies) and sample points of the initial ellipsoid              *)
(* cut: the cut, its status, the size measure, centre and shape after it,  *)
(*      and proposed points of the kept part                               *)
(* set: the centre is moved                                                *)
(***************************************************************************)
EXTENDS SearchSpace, Json, IOUtils
VARIABLES l, x, P, alive
vars == <<l, x, P, alive>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Fail(c) == PrintT(<<"FAIL", l, c>>)
Must(p, c) == IF p THEN TRUE ELSE Fail(c)
tol == "1e-7"

Same == E.x = x /\ E.P = P
CloseV(u, v, sc, t) == \A i \in 1..Len(u) : RLe(RAbs(RSub(u[i], v[i])), RMul(t, sc[i]))
CloseM(A, B, sc, t) == \A i, j \in 1..Len(A) : RLe(RAbs(RSub(A[i][j], B[i][j])), RMul(t, RMul(sc[i], sc[j])))
Diag(A) == Force([i \in 1..Len(A) |-> RSqrt(RAbs(A[i][i]))])

\* the observed new ellipsoid in the coordinates of the cut, if it has the
\* expected symmetry: semi-axis along g, factor across it
Across(g, tau) ==
  LET n == Len(g)
      Pg == MulMV(P, g)
      h(k) == Force([i \in 1..n |-> RRound(RSub(IF i = k THEN 1 ELSE 0, RMul(RDiv(Pg[k], RSq(tau)), g[i])))])
      K == {k \in 1..n : RLt(RMul("1e-4", P[k][k]), Quad(P, h(k)))}
  IN {RDiv(Quad(E.P, h(k)), Quad(P, h(k))) : k \in K}
Shape(g, tau) ==
  LET bb == Across(g, tau)
      b2 == IF \E b \in bb : \A d \in bb : RLe(b, d) THEN CHOOSE b \in bb : \A d \in bb : RLe(b, d) ELSE "nan"
  IN [ok |-> bb # {} /\ \A d \in bb : Close(d, b2, tol, RAbs(b2)),
      m |-> [c |-> RDiv(RDot(g, SubV(E.x, x)), tau), a2 |-> RDiv(Quad(E.P, g), RSq(tau)), b2 |-> b2]]

\* the first hyperplane of a slab lies beyond the far side
FarSide(bs) == Len(bs) = 2 /\ RLt(bs[1], -1)

Slack(n) == RMul("1e-7", n)

TCut ==
  LET g == E.g
      n == Len(g)
      tau == RRound(RSqrt(Quad(P, g)))
      bs == Force([i \in 1..Len(E.b) |-> RRound(RDiv(E.b[i], tau))])
      st == Status(n, E.op, E.par, bs)
      t1 == T1(E.par, bs)
      t2 == T2(E.op, bs)
      m == After(n, E.op, E.par, bs)
      q == Post(x, P, g, tau, m)
      sh == Shape(g, tau)
      good == PosDef(E.P) /\ \A i \in 1..n : RIsNum(E.x[i])
      ratio == RDiv(Det(E.P), Det(P))
      deep == E.op = "central" \/ RLe(0, bs[1])
      inKept(y) == LET t == RDiv(RDot(g, SubV(y, x)), tau) IN
                   RLe(InvQuad(P, SubV(y, x)), 1) /\ RLe(t1, t) /\ RLe(t, t2)
      inNew(y) == RLe(InvQuad(E.P, SubV(y, E.x)), RAdd(1, "1e-6"))
      meets(y) == LET t == RDiv(RDot(g, SubV(y, x)), tau) IN
                  RLe(t, RNeg(B0(E.op, bs))) /\ (Pair(E.par, bs) => RLe(RNeg(bs[2]), t))
      left == {i \in alive : meets(Trace[E.base].pts[i])}
  IN
  IF IsZeroV(g)
  THEN /\ Must(E.st = "ValueError", "C10 zero gradient not refused with an error")
       /\ Must(Same, "C10 zero gradient changed the space")
       /\ alive' = alive
  ELSE
   /\ Must(E.st \in {"Success", "NoSoln", "NoEffect"}, "C10 C11 raised " \o E.st)
   /\ Must(E.st = st \/ (FarSide(bs) /\ E.op = "q" /\ {E.st, st} = {"Success", "NoEffect"}), "C10 status")
   /\ Must(Close(E.tsq, RSq(tau), tol, RSq(tau)), "C11 size measure is not the squared extent along the gradient")
   /\ E.st # "Success" => Must(Same, "C10 refused cut changed the space")
   /\ alive' = left
   /\ IF E.st # "Success" THEN TRUE
      ELSE IF ~good THEN /\ Fail("C08 not a genuine ellipsoid any more")
                         /\ (st = "Success" => Fail("C07 C09 not a genuine ellipsoid any more"))
      ELSE IF st = "NoSoln" THEN TRUE      \* nothing was kept: only the status is wrong
      ELSE /\ Must(sh.ok => Contains(sh.m, t1, t2, "1e-6"), "C07 kept part leaves the new ellipsoid")
           /\ Must(\A i \in 1..Len(E.prop) : inKept(E.prop[i]) => inNew(E.prop[i]), "C07 kept point lost")
           /\ Must(\A i \in left : inNew(Trace[E.base].pts[i]), "C07 point satisfying all cuts lost")
           /\ Must(RLe(ratio, RAdd(1, Slack(n))), "C08 enlarged")
           /\ deep => Must(RLe(ratio, RMul(CentralFactor(n), RAdd(1, Slack(n)))), "C08 deep cut shrinks less than a central one")
           /\ ~FarSide(bs) =>
                /\ Must(CloseV(E.x, q.x, Diag(P), tol), "C09 centre is not that of the smallest ellipsoid")
                /\ Must(CloseM(E.P, q.P, Diag(P), tol), "C09 shape is not that of the smallest ellipsoid")
                /\ Must(Close(Quad(E.P, g), RMul(m.a2, RSq(tau)), "1e-6", RMul(m.a2, RSq(tau))), "C09 extent along the cut")

Init == l = 1 /\ x = <<>> /\ P = <<>> /\ alive = {}
Next ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ \/ E.ev = "new" /\ x' = E.x /\ P' = E.P
           /\ alive' = {i \in 1..Len(E.pts) : RLe(InvQuad(E.P, SubV(E.pts[i], E.x)), 1)}
           /\ Must(PosDef(E.P), "C08 not a genuine ellipsoid at the start")
           /\ Must(E.start.x = E.x, "C11 initial centre")
           /\ Must(\A i, j \in 1..Len(E.P) : IF i = j THEN Close(E.P[i][j], E.start.d[i], tol, E.start.d[i])
                       ELSE RLe(RAbs(E.P[i][j]), RMul(tol, RMul(RSqrt(E.start.d[i]), RSqrt(E.start.d[j])))), "C11 initial shape")
        \/ E.ev = "cut" /\ TCut /\ x' = E.x /\ P' = E.P
        \/ E.ev = "set" /\ Must(E.x = E.to, "C10 C11 centre not set") /\ Must(E.P = P, "C10 C11 shape changed by moving the centre")
           /\ x' = E.x /\ P' = E.P /\ alive' = {}
  \/ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintT(<<"CONSUMED", Len(Trace)>>) /\ UNCHANGED <<x, P, alive>>
=============================================================================
