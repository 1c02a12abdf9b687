------------------------------- MODULE LPTrace -------------------------------
(* Recorded assessment histories of the real filter oracle.                   *)
EXTENDS Lowpass, Json, IOUtils
VARIABLES l, S, sp
vars == <<l, S, sp>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
P == Trace[E.base]
Must(p, c) == IF p THEN TRUE ELSE PrintT(<<"FAIL", l, c>>)
m == Len(S)
np == EndPass(m, P.wpass)
ns == EndTrans(m, P.wstop)
Mag(x) == RSum([j \in 1..Len(x) |-> RMul(2, RAbs(x[j]))])
RowIs(g, k, sign) == Len(g) = Len(S[k]) /\ \A j \in 1..Len(g) : Close(g[j], RMul(sign, S[k][j]), "1e-9", 1)
RECURSIVE MaxIn(_, _, _)      \* largest of v[a..b], by halves
MaxIn(v, a, b) == IF a = b THEN v[a]
                  ELSE LET c == (a + b) \div 2
                           p == MaxIn(v, a, c)
                           q == MaxIn(v, c + 1, b)
                       IN IF RLe(p, q) THEN q ELSE p
MaxOf(v) == MaxIn(v, ns + 1, m)
TJudge(v) ==
  LET x == E.x
      bound == IF E.op = "optim" THEN E.gamma ELSE sp
      eps == RMul("1e-11", RAdd(Mag(x), RAdd(RAbs(bound), RAdd(RAbs(P.up), RAbs(P.lp)))))
      lo(k) == Lower(k, np, P.lp)
      hi(k) == Upper(k, np, ns, P.up, bound)
      broken(k, by) == RLt(by, RSub(lo(k), v[k])) \/ (hi(k) # "none" /\ RLt(by, RSub(v[k], hi(k))))
      pair(a, b) == Len(E.b) = 2 /\ Close(E.b[1], a, 1, eps) /\ Close(E.b[2], b, 1, eps)
      above(k) == /\ hi(k) # "none" /\ RLt(RSub(hi(k), eps), v[k]) /\ RowIs(E.g, k, 1)
                  /\ pair(RSub(v[k], hi(k)), RSub(v[k], lo(k)))
      below(k) == /\ RLt(v[k], RAdd(lo(k), eps)) /\ RowIs(E.g, k, -1)
                  /\ IF hi(k) = "none" THEN Len(E.b) = 1 /\ Close(E.b[1], RSub(lo(k), v[k]), 1, eps)
                     ELSE pair(RSub(lo(k), v[k]), RSub(hi(k), v[k]))
      lead == /\ RLt(x[1], eps) /\ Len(E.b) = 1 /\ Close(E.b[1], RNeg(x[1]), 1, eps)
              /\ Close(E.g[1], -1, "1e-12", 1) /\ \A j \in 2..Len(E.g) : REq(E.g[j], 0)
      accepted == IF E.op = "optim" THEN E.val # "none" ELSE E.none
  IN
  IF E.err # "" THEN Must(FALSE, "raised " \o E.err)
  ELSE IF accepted
  THEN /\ Must(\A k \in 1..m : ~broken(k, eps), "accepted although a constraint is violated")
       /\ E.op = "optim" =>
            LET top == MaxOf(v) IN
            /\ Must(Close(E.val, top, 1, eps), "objective value is not the largest stopband response")
            /\ Must(\E k \in (ns+1)..m : RowIs(E.g, k, 1) /\ Close(v[k], top, 1, eps), "objective cut is not that of the largest stopband response")
            /\ Must(pair(0, top), "objective cut has wrong offsets")
  ELSE Must((\E k \in 1..m : above(k) \/ below(k)) \/ lead, "rejected without a violated constraint, its exact violation and opposite side")
TAssess == \E v \in {MulMV(S, E.x)} : TJudge(v)      \* evaluated once
Init == l = 1 /\ S = <<>> /\ sp = 0
Next ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ IF E.ev = "new" THEN S' = (IF Len(S) = Grid(E.n) THEN S ELSE Spectrum(E.n)) /\ sp' = E.sp
        ELSE TAssess /\ UNCHANGED S /\ sp' = IF E.op = "optim" THEN E.gamma ELSE sp
  \/ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintT(<<"CONSUMED", Len(Trace)>>) /\ UNCHANGED <<S, sp>>
=============================================================================
