------------------------------- MODULE SSModel -------------------------------
(***************************************************************************)
(* The search space as a transition system: every sequence of cuts from a  *)
(* palette (all three updates, single and parallel, empty, shallow, wide,  *)
(* beyond the ellipsoid, zero gradients, moves of the centre), with the    *)
(* status, the exact centre and the exact shape after each.  Completed     *)
(* behaviours are written out and stepped through the real classes.        *)
(***************************************************************************)
EXTENDS SearchSpace, Json, CSV, IOUtils
CONSTANTS Depth, Starts, Pars
VARIABLES n, par, start, x, P, script, kept
vars == <<n, par, start, x, P, script, kept>>

S2 == [n |-> 2, kap |-> "9", diag |-> <<>>, x |-> <<"0", "0">>]
D2 == [n |-> 2, kap |-> "0", diag |-> <<"2", "25/2">>, x |-> <<"1", "-2">>]
S3 == [n |-> 3, kap |-> "1/4", diag |-> <<>>, x |-> <<"1/2", "0", "-3">>]
D3 == [n |-> 3, kap |-> "0", diag |-> <<"400", "3", "50">>, x |-> <<"0", "7", "0">>]
S4 == [n |-> 4, kap |-> "100", diag |-> <<>>, x |-> <<"1", "1", "1", "1">>]
AllStarts == {S2, D2, S3, D3, S4}
SomeStarts == {S2, D3}

Grads(m) == CASE m = 2 -> {<<1, 0>>, <<1, 2>>, <<-3, 1>>}
              [] m = 3 -> {<<1, 0, 0>>, <<1, 2, -1>>, <<0, -4, 3>>}
              [] m = 4 -> {<<1, 0, 0, 0>>, <<1, 2, -1, 1>>, <<0, -4, 3, 0>>}
\* offsets in units of tau
Single(op) == CASE op = "bias" -> {<<"0">>, <<"3/10">>, <<"9/10">>, <<"3/2">>}
                [] op = "q" -> {<<"-3/2">>, <<"-3/5">>, <<"-1/5">>, <<"0">>, <<"1/2">>, <<"6/5">>}
                [] op = "central" -> {<<"0">>}
Slabs(op) == CASE op = "central" -> {<<"0", "1/2">>, <<"0", "13/10">>, <<"0", "-1/5">>}
               [] op # "central" -> {<<"0", "1/2">>, <<"1/5", "3/5">>, <<"-1/5", "2/5">>, <<"-3/10", "9/10">>,
                     <<"-4/5", "4/5">>, <<"3/10", "7/5">>, <<"6/5", "3/2">>, <<"-3/2", "-6/5">>, <<"1/2", "1/5">>,
                     <<"-3/5", "-3/10">>}
Ops == {"bias", "central", "q"}

Str(v) == [i \in 1..Len(v) |-> RStr(v[i])]
StrM(A) == [i \in 1..Len(A) |-> Str(A[i])]

\* sample points of the initial ellipsoid: centre +- half axes and corners of a box inside it
Half(d) == RDiv(RSqrt(d), 2)
Diag0(s) == [i \in 1..s.n |-> IF s.diag = <<>> THEN s.kap ELSE s.diag[i]]
Samples(s) ==
  {Str([i \in 1..s.n |-> RAdd(s.x[i], RMul(f[i], Half(RDiv(Diag0(s)[i], s.n))))]) : f \in [1..s.n -> IF s.n = 2 THEN {-2, -1, 1, 2} ELSE {-2, 2}]}

Init == /\ start \in Starts
        /\ n = start.n /\ par \in Pars
        /\ x = Str(start.x)
        /\ P = [i \in 1..start.n |-> [j \in 1..start.n |-> IF i = j THEN Diag0(start)[i] ELSE "0"]]
        /\ script = <<>> /\ kept = Samples(start)

InE(y) == RLe(InvQuad(P, SubV(y, x)), RAdd(1, "1e-25"))

Do(op, g, bs) ==
  LET tau == RSqrt(Quad(P, g))
      st == Status(n, op, par, bs)
      m == After(n, op, par, bs)
      q == Post(x, P, g, tau, m)
      up == RDot(g, x)
  IN /\ ~OutOfDomain(op, par, bs)
     /\ x' = IF st = "Success" THEN Str(q.x) ELSE x
     /\ P' = IF st = "Success" THEN StrM(q.P) ELSE P
     /\ kept' = {y \in kept : LET t == RDiv(RSub(RDot(g, y), up), tau) IN
                    RLe(t, RNeg(B0(op, bs))) /\ (Pair(par, bs) => RLe(RNeg(bs[2]), t))}
     /\ script' = Append(script, [op |-> op, g |-> g, b |-> [i \in 1..Len(bs) |-> RStr(RRound(RMul(bs[i], tau)))],
                                  st |-> st])
     /\ UNCHANGED <<n, par, start>>

Zero(op) == /\ script' = Append(script, [op |-> op, g |-> [i \in 1..n |-> 0], b |-> <<"1">>, st |-> "error"])
            /\ UNCHANGED <<n, par, start, x, P, kept>>
Move == /\ x' = Str(AddV(x, [i \in 1..n |-> IF i = 1 THEN RDiv(1, 8) ELSE 0]))
        /\ script' = Append(script, [op |-> "set", g |-> x', b |-> <<>>, st |-> "set"])
        /\ kept' = {}
        /\ UNCHANGED <<n, par, start, P>>

Next == /\ Len(script) < Depth
        /\ \/ \E op \in Ops, g \in Grads(n) : \E bs \in Single(op) \cup Slabs(op) : Do(op, g, bs)
           \/ \E op \in Ops : Zero(op)
           \/ Move
\* for simulation: one random cut (in its domain) per step
SNext == /\ Len(script) < Depth
         /\ \E r \in {RandomElement(1..12)} :
              IF r = 1 THEN \E op \in {RandomElement(Ops)} : Zero(op)
              ELSE IF r = 2 THEN Move
              ELSE \E op \in {RandomElement(Ops)}, g \in {RandomElement(Grads(n))} :
                     \E bs \in {RandomElement({b \in Single(op) \cup Slabs(op) : ~OutOfDomain(op, par, b)})} : Do(op, g, bs)
-----------------------------------------------------------------------------
\* the whole-history statements
Genuine == PosDef(P)
NothingLost == \A y \in kept : InE(y)
RefusedKeeps == [][script'[Len(script')].st \in {"NoSoln", "NoEffect", "error"} => x' = x /\ P' = P]_vars
Shrinking == [][LET s == script'[Len(script')] IN
                s.st = "Success" => RLe(Det(P'), RMul(Det(P), RAdd(1, "1e-25")))]_vars
Emit == Len(script) = Depth =>
   CSVWrite("%1$s", <<ToJson([n |-> n, par |-> par, start |-> start, script |-> script, x |-> x, P |-> P])>>, IOEnv.OUT)
=============================================================================
