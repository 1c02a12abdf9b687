------------------------------- MODULE LDTrace -------------------------------
(* Recorded histories of the real factorisation manager.  Each event is one   *)
(* factorisation with all the questions asked after it.                       *)
EXTENDS LDLT, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Must(p, c) == IF p THEN TRUE ELSE PrintT(<<"FAIL", l, c>>)
Sure(A, semi) == Clear(A) \/ (ExactElim(A) /\ (semi => ExactWalk(A)))
Upper(R) == \A i, j \in 1..Len(R) : IF i > j THEN REq(R[i][j], 0) ELSE (i = j => RLt(0, R[i][i]))
Gram(R) == Force([i \in 1..Len(R) |-> Force([j \in 1..Len(R) |-> RSum([k \in 1..Len(R) |-> RMul(R[k][i], R[k][j])])])])
\* entry by entry, relative to the diagonal entries (B is positive definite)
CloseMat(A, B) == LET d == Force([i \in 1..Len(B) |-> RSqrt(RAbs(B[i][i]))]) IN
                  \A i, j \in 1..Len(A) : Close(A[i][j], B[i][j], "1e-9", RMul(d[i], d[j]))
Abs1(v) == Force([i \in 1..Len(v) |-> RAbs(v[i])])
AbsM(A) == Force([i \in 1..Len(A) |-> Abs1(A[i])])
AbsQuad(A, v) == QuadF(AbsM(A), Abs1(v))
TEvent ==
  LET A == E.A
      n == Len(A)
      sure == Sure(A, E.semi)
      truth == IF E.semi THEN PSD(A) ELSE PD(A)
  IN
  IF E.err # "" THEN Must(FALSE, "C14 factorisation raised " \o E.err)
  ELSE
  /\ IF ~sure \/ E.ans = truth THEN TRUE
     ELSE IF E.semi /\ E.ans /\ RestartOK(A) THEN Must(FALSE, "KNOWN C14 semidefinite variant accepts an indefinite matrix after a zero pivot")
     ELSE Must(FALSE, "C14 verdict")
  /\ Must(\A i \in 1..Len(E.spd) : E.spd[i] = E.ans, "C14 C15 verdict changed by later questions")
  /\ ~E.ans => Must(E.root.err = "AssertionError", "C14 square root of a rejected matrix not refused")
  /\ E.ans /\ ~E.semi =>
       /\ Must(E.root.err = "", "C14 square root refused")
       /\ E.root.err = "" => /\ Must(Upper(E.root.R), "C14 square root not upper triangular with positive diagonal")
                             /\ Must(CloseMat(Gram(E.root.R), A), "C14 square root squared is not the matrix")
  /\ \A k \in 1..Len(E.wit) :
       LET w == E.wit[k] IN
       IF E.ans THEN Must(w.err = "AssertionError", "C15 witness of an accepted matrix not refused")
       ELSE IF w.err # "" THEN Must(FALSE, "C15 witness raised " \o w.err)
       ELSE IF ~(0 <= w.a /\ w.a < w.b /\ w.b <= n /\ Len(w.v) = n) THEN Must(FALSE, "C15 window is no block of the matrix")
       ELSE LET v == SubV2(w.v, w.a + 1, w.b)
                W == Sub(A, w.a + 1, w.b)
                q == QuadF(W, v)
            IN /\ Must(\E i \in 1..Len(v) : ~REq(v[i], 0), "C15 witness is zero")
               /\ Must(RLe(0, w.ep), "C15 negative ep")
               /\ Must(Close(q, RNeg(w.ep), "1e-9", AbsQuad(W, v)), "C15 witness does not certify the violation")
               /\ sure /\ (~truth) /\ RLt(Pivots(W)[Len(Pivots(W))], 0) => Must(RLt(0, w.ep), "C15 ep not positive although the pivot is negative")
               /\ \A j \in 1..Len(w.quads) :
                    Must(Close(w.quads[j].q, QuadF(Sub(w.quads[j].M, w.a + 1, w.b), v), "1e-9", AbsQuad(Sub(w.quads[j].M, w.a + 1, w.b), v)),
                         "C15 quadratic form on the window")
Init == l = 1
Next ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1 /\ TEvent
  \/ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintT(<<"CONSUMED", Len(Trace)>>)
=============================================================================
