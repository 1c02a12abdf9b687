-------------------------------- MODULE LDLT --------------------------------
(***************************************************************************)
(* The factorisation manager.                                              *)
(*                                                                         *)
(* First what its answers mean: positive (semi)definiteness, the           *)
(* certificate of a rejection and the square root of an accepted matrix.   *)
(* Then the manager itself as a state machine: a storage that survives     *)
(* from one factorisation to the next, and a row-by-row elimination A = L  *)
(* D L' that keeps L below the diagonal, D on it and D L' above it, stops  *)
(* at the first non-positive pivot (strict) or the first negative one,     *)
(* restarting after a zero pivot (semidefinite variant), and a back        *)
(* substitution for the witness.  Module LDLTModel checks the second       *)
(* against the first.                                                      *)
(***************************************************************************)
EXTENDS RatMat, FiniteSets, TLC
-----------------------------------------------------------------------------
Sub(A, a, b)  == Force([i \in 1..(b-a+1) |-> Force([j \in 1..(b-a+1) |-> A[a+i-1][a+j-1]])])
SubV2(v, a, b) == Force([i \in 1..(b-a+1) |-> v[a+i-1]])
QuadF(A, v)   == RDot(v, MulMV(A, v))
PD(A) == LET p == Pivots(A) IN Len(p) = Len(A) /\ \A i \in 1..Len(p) : RLt(0, p[i])
RECURSIVE PSD(_)
PSD(A) ==
  IF Len(A) = 0 THEN TRUE
  ELSE IF RLt(A[1][1], 0) THEN FALSE
  ELSE IF REq(A[1][1], 0)
       THEN (\A j \in 1..Len(A) : REq(A[1][j], 0)) /\ PSD(Sub(A, 2, Len(A)))
       ELSE PSD(Schur(A))
\* the semidefinite variant restarts after a zero pivot, whatever stands beside it
RECURSIVE RestartOK(_)
RestartOK(A) ==
  IF Len(A) = 0 THEN TRUE
  ELSE LET p == Pivots(A)
           k == Len(p)
       IN IF RLt(0, p[k]) THEN TRUE
          ELSE IF RLt(p[k], 0) THEN FALSE
          ELSE IF k = Len(A) THEN TRUE ELSE RestartOK(Sub(A, k+1, Len(A)))
-----------------------------------------------------------------------------
(* Rounding: the verdict is demanded when every pivot is far from zero       *)
(* (relative to the matrix), or when the elimination is exact in doubles.    *)
RECURSIVE MaxAbs(_, _, _)
MaxAbs(A, i, m) == IF i > Len(A) THEN m
                   ELSE MaxAbs(A, i+1, RMax(m, RAbs(A[i][i])))
Far(p, sc) == \A i \in 1..Len(p) : RLt(RMul("1e-5", sc), RAbs(p[i]))
Clear(A) == Far(Pivots(A), MaxAbs(A, 1, 0))
RECURSIVE ExactElim(_)
ExactElim(A) ==
  IF Len(A) = 0 THEN TRUE
  ELSE /\ \A i, j \in 1..Len(A) : RFits(A[i][j], 14)
       /\ IF RLt(A[1][1], 0) THEN TRUE
          ELSE IF REq(A[1][1], 0) THEN ExactElim(Sub(A, 2, Len(A)))
          ELSE /\ \A i \in 1..Len(A) : RFits(RDiv(A[i][1], A[1][1]), 14)
               /\ ExactElim(Schur(A))
\* the same for the walk with restarts
RECURSIVE ExactWalk(_)
ExactWalk(A) ==
  IF Len(A) = 0 THEN TRUE
  ELSE LET k == Len(Pivots(A)) IN ExactElim(Sub(A, 1, k)) /\ ExactWalk(Sub(A, k+1, Len(A)))
-----------------------------------------------------------------------------
(* The manager.  S: storage, lo: start of the window, i: next row,           *)
(* pos: reported window <<0,0>> or <<start, stop>> (from 0, as in the code). *)
Begin(S) == [S |-> S, lo |-> 1, i |-> 1, pos |-> <<0, 0>>]
RECURSIVE RowFrom(_, _, _, _, _)
RowFrom(A, S, lo, i, j) ==     \* columns j..i-1 of row i remain; S[i][j] (scratch in S[j][i]) follows the code
  LET diag == RSub(A[i][j], RSum([k \in 1..(j-lo) |-> RMul(S[i][lo+k-1], S[lo+k-1][j])])) IN
  IF j = i THEN Force([S EXCEPT ![i][i] = diag])
  ELSE RowFrom(A, Force([S EXCEPT ![j][i] = diag, ![i][j] = RDiv(diag, S[j][j])]), lo, i, j+1)
Row(A, semi, s) ==
  LET S == RowFrom(A, s.S, s.lo, s.i, s.lo)
      d == S[s.i][s.i]
      bad == IF semi THEN RLt(d, 0) ELSE RLe(d, 0)
  IN [S |-> S,
      lo |-> IF ~bad /\ semi /\ REq(d, 0) THEN s.i + 1 ELSE s.lo,
      i |-> IF bad THEN Len(A) + 1 ELSE s.i + 1,
      pos |-> IF bad THEN <<s.lo - 1, s.i>> ELSE s.pos]
Done(A, s) == s.i > Len(A)
Accepted(s) == s.pos[2] = 0
RECURSIVE Back(_, _, _, _)
Back(S, lo, m, v) ==     \* v: witness entries i..m, to be extended down to lo
  LET i == m - Len(v) + 1 IN
  IF i = lo THEN v
  ELSE Back(S, lo, m, <<RNeg(RSum([k \in 1..Len(v) |-> RMul(S[i+k-1][i-1], v[k])]))>> \o v)
Witness(s) == Back(s.S, s.pos[1] + 1, s.pos[2], <<1>>)
Ep(s) == RNeg(s.S[s.pos[2]][s.pos[2]])
\* the square root, squared: row i of D^(1/2) L' times D^(1/2) ... avoids roots
Recomposed(S) == Force([i \in 1..Len(S) |-> Force([j \in 1..Len(S) |->
   RSum([k \in 1..(IF i < j THEN i ELSE j) |->
      RMul(RMul(IF i = k THEN 1 ELSE S[i][k], S[k][k]), IF j = k THEN 1 ELSE S[j][k])])])])
=============================================================================
