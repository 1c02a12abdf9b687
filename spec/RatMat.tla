------------------------------- MODULE RatMat -------------------------------
(* Eliminations on matrices of rationals (sequences of rows).  TLC evaluates  *)
(* MulMV, Pivots and InvQuad with the Java class of the same name; RatLaws    *)
(* compares it with the copies (primed names) defined here.                   *)
EXTENDS Rat
MulMV(A, v)    == Force([i \in 1..Len(A) |-> RDot(A[i], v)])
\* one step of Gaussian elimination on a symmetric matrix
Schur(A) == LET n == Len(A) IN
  Force([i \in 1..(n-1) |-> [j \in 1..(n-1) |->
      RRound(RSub(A[i+1][j+1], RDiv(RMul(A[i+1][1], A[1][j+1]), A[1][1])))]])
RECURSIVE Pivots(_)
Pivots(A) == IF Len(A) = 0 THEN <<>>
             ELSE IF ~RLt(0, A[1][1]) THEN <<A[1][1]>>
             ELSE <<A[1][1]>> \o Pivots(Schur(A))
\* v' A^-1 v for a positive definite A
RECURSIVE InvQuad(_, _)
InvQuad(A, v) ==
  IF Len(A) = 0 THEN 0
  ELSE LET n == Len(A)
           w == Force([i \in 1..(n-1) |-> RRound(RSub(v[i+1], RDiv(RMul(A[i+1][1], v[1]), A[1][1])))])
       IN  RAdd(RDiv(RSq(v[1]), A[1][1]), InvQuad(Schur(A), w))
(* the same definitions under other names, evaluated by TLC itself *)
MulMV1(A, v) == Force([i \in 1..Len(A) |-> RDot(A[i], v)])
RECURSIVE Pivots1(_)
Pivots1(A) == IF Len(A) = 0 THEN <<>>
             ELSE IF ~RLt(0, A[1][1]) THEN <<A[1][1]>>
             ELSE <<A[1][1]>> \o Pivots1(Schur(A))
RECURSIVE InvQuad1(_, _)
InvQuad1(A, v) ==
  IF Len(A) = 0 THEN 0
  ELSE LET n == Len(A)
           w == Force([i \in 1..(n-1) |-> RRound(RSub(v[i+1], RDiv(RMul(A[i+1][1], v[1]), A[1][1])))])
       IN  RAdd(RDiv(RSq(v[1]), A[1][1]), InvQuad1(Schur(A), w))
=============================================================================
