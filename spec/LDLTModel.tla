------------------------------ MODULE LDLTModel ------------------------------
(* One manager, a history of factorisations of every small integer matrix;   *)
(* finished histories are written out and stepped through the real manager.  *)
EXTENDS LDLT, Json, CSV, IOUtils
CONSTANTS N, Lo, Hi, H, Rand \* Rand: matrices drawn at random (simulation); order, entries Lo-3..Hi (no negative constants in a configuration), history length
VARIABLES A, semi, s, h
vars == <<A, semi, s, h>>
Entries == (Lo-3)..Hi
Pairs == {p \in (1..N) \X (1..N) : p[1] <= p[2]}
Mk(f) == Force([i \in 1..N |-> Force([j \in 1..N |-> f[<<IF i < j THEN i ELSE j, IF i < j THEN j ELSE i>>]])])
Draws == {Force([i \in 1..N |-> Force([j \in 1..N |-> IF i = j THEN RandomElement(0..(2*Hi)) ELSE RandomElement(Entries)])])}
Mats == IF Rand THEN {Force([i \in 1..N |-> Force([j \in 1..N |-> IF i < j THEN f[i][j] ELSE f[j][i]])]) : f \in Draws}
        ELSE {Mk(f) : f \in [Pairs -> Entries]}
Zero == Force([i \in 1..N |-> Force([j \in 1..N |-> 0])])
Init == A \in Mats /\ semi \in BOOLEAN /\ s = Begin(Zero) /\ h = <<>>
Elim == ~Done(A, s) /\ s' = Row(A, semi, s) /\ UNCHANGED <<A, semi, h>>
Again == /\ Done(A, s) /\ Len(h) + 1 < H
         /\ h' = Append(h, [A |-> A, semi |-> semi])
         /\ A' \in Mats /\ semi' \in BOOLEAN /\ s' = Begin(s.S)
Next == Elim \/ Again
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Fin == Done(A, s)
Verdict == Fin /\ ~semi => (Accepted(s) <=> PD(A))
SemiVerdict == Fin /\ semi => /\ (PSD(A) => Accepted(s))
                              /\ (Accepted(s) <=> RestartOK(A))
Certificate == Fin /\ ~Accepted(s) =>
   LET v == Witness(s)
       W == Sub(A, s.pos[1] + 1, s.pos[2])
   IN /\ Close(QuadF(W, v), RNeg(Ep(s)), "1e-40", 1)
      /\ RLe(0, Ep(s)) /\ (semi => RLt(0, Ep(s)))
      /\ v[Len(v)] = 1
Root == Fin /\ ~semi /\ Accepted(s) => \A i, j \in 1..N : Close(Recomposed(s.S)[i][j], A[i][j], "1e-40", 1)
\* semidefiniteness by its definition through principal minors (law of PSD)
RECURSIVE DetI(_)
DetI(B) == IF Len(B) = 0 THEN 1
           ELSE IF Len(B) = 1 THEN B[1][1]
           ELSE RSum([c \in 1..Len(B) |-> RMul(IF c % 2 = 1 THEN B[1][c] ELSE RNeg(B[1][c]),
                 DetI([i \in 1..(Len(B)-1) |-> [j \in 1..(Len(B)-1) |-> B[i+1][IF j < c THEN j ELSE j+1]]]))])
Pick(B, I) == LET q == CHOOSE t \in [1..Cardinality(I) -> I] : \A a, b \in DOMAIN t : a < b => t[a] < t[b]
              IN [i \in 1..Cardinality(I) |-> [j \in 1..Cardinality(I) |-> B[q[i]][q[j]]]]
MinorLaw == Fin /\ (Rand \/ Len(h) = 0) => (PSD(A) <=> \A I \in SUBSET (1..N) : RLe(0, DetI(Pick(A, I))))
              
Emit == Fin /\ Len(h) + 1 = H =>
  CSVWrite("%1$s", <<ToJson([n |-> N, h |-> Append(h, [A |-> A, semi |-> semi])])>>, IOEnv.OUT)
=============================================================================
