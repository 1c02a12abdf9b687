------------------------------ MODULE LMIModel ------------------------------
(* Small problems in two variables, a history of assessed points: the cut of  *)
(* every infeasible point separates it from every feasible point of a grid.   *)
EXTENDS LMI, Json, CSV, IOUtils
CONSTANTS N, V, E, H
VARIABLES hom, B, F, h
vars == <<hom, B, F, h>>
Pt == {<<a, b>> : a \in -2..2, b \in -2..2}
Draw(d) == {Force([i \in 1..N |-> Force([j \in 1..N |-> RandomElement(-E..E)])])}
Sym(M) == Force([i \in 1..N |-> Force([j \in 1..N |-> IF i < j THEN M[i][j] ELSE M[j][i]])])
\* definite enough to make feasible points likely
Shift(M, s) == Force([i \in 1..N |-> Force([j \in 1..N |-> IF i = j THEN M[i][j] + s ELSE M[i][j]])])
Init == hom = FALSE /\ B = <<>> /\ F = <<>> /\ h = <<>>
Make == /\ F = <<>> /\ hom' \in BOOLEAN
        /\ \E b \in Draw(0), f1 \in Draw(1), f2 \in Draw(2), s \in {0, 2, 4} :
             B' = Shift(Sym(b), s) /\ F' = <<Shift(Sym(f1), IF hom' THEN s ELSE 0), Sym(f2)>>
        /\ UNCHANGED h
Assess == /\ F # <<>> /\ Len(h) < H /\ \E x \in Pt : h' = Append(h, x)
          /\ UNCHANGED <<hom, B, F>>
Next == Make \/ Assess
Spec == Init /\ [][Next]_vars
Last == h[Len(h)]
Separates == Len(h) > 0 /\ ~Feasible(hom, B, F, Last) =>
  LET c == SpecCut(hom, B, F, Last) IN
  /\ RLe(0, c.ep)
  /\ \A y \in Pt : Feasible(hom, B, F, y) => RLt(Value(c, Last, y), "1e-40")
  /\ \A y \in {<<1, 1>>, <<-1, 2>>} :
       LET s == Factored(At(hom, B, F, Last))
           W == Sub(At(hom, B, F, y), s.pos[1] + 1, s.pos[2])
       IN Close(Value(c, Last, y), RNeg(QuadF(W, Witness(s))), "1e-40", 1)
Emit == Len(h) = H => CSVWrite("%1$s", <<ToJson([hom |-> hom, B |-> B, F |-> F, x |-> h])>>, IOEnv.OUT)
=============================================================================
