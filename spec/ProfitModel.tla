----------------------------- MODULE ProfitModel -----------------------------
(* The round robin over two constraints, and the discrete protocol on top of   *)
(* it.  What matters about a point is which constraints it violates, and (for  *)
(* the discrete oracle) what its rounded plan is like; histories of these      *)
(* classes are written out and realised with concrete numbers.                 *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS H, Kind         \* Kind: "plain", "robust" or "discrete"
VARIABLES idx, cont, plan, answer, h
vars == <<idx, cont, plan, answer, h>>
\* violated constraints of a point
V == SUBSET {1, 2}
\* how the rounded plan comes about
R == IF Kind = "discrete" THEN {"up", "down", "toOne", "mixed"} ELSE {"none"}
Retry == IF Kind = "discrete" THEN BOOLEAN ELSE {FALSE}
Init == idx = 2 /\ cont = {} /\ plan = {} /\ answer = "accept" /\ h = <<>>
\* scan at most two constraints after the last position
Scan(i, bad) == LET j == (i % 2) + 1 k == (j % 2) + 1 IN
                IF j \in bad THEN [i |-> j, hit |-> TRUE] ELSE IF k \in bad THEN [i |-> k, hit |-> TRUE] ELSE [i |-> k, hit |-> FALSE]
Ask(bad, pbad, r, retry) ==
  LET s == Scan(idx, bad)
      t == Scan(IF retry THEN idx ELSE s.i, IF retry THEN plan ELSE pbad)
      twice == Kind = "discrete" /\ (retry \/ ~s.hit)
  IN /\ answer' = IF Kind # "discrete" THEN (IF s.hit THEN "reject" ELSE "accept")
                  ELSE IF ~retry /\ s.hit THEN "own" ELSE IF t.hit THEN "planreject" ELSE "planaccept"
     /\ idx' = IF twice THEN t.i ELSE s.i
     /\ cont' = bad
     /\ plan' = IF twice /\ ~retry THEN pbad ELSE plan
     /\ h' = Append(h, [bad |-> bad, pbad |-> pbad, r |-> r, retry |-> retry])
Next == Len(h) < H /\ \E bad \in V, pbad \in (IF Kind = "discrete" THEN V ELSE {{}}), r \in R, retry \in Retry :
          /\ (retry => h # <<>> /\ bad = {} /\ pbad = {} /\ r = "up")      \* a retry asks nothing new
          /\ (bad # {} => pbad = {} /\ r \in {"up", "none"})
          /\ Ask(bad, pbad, r, retry)
Spec == Init /\ [][Next]_vars
Last == h[Len(h)]
Right == h # <<>> =>
  /\ Kind # "discrete" => (answer = "accept" <=> Last.bad = {})
  /\ Kind = "discrete" => /\ (answer = "own" <=> ~Last.retry /\ Last.bad # {})
                          /\ (answer \in {"planreject", "planaccept"} => (answer = "planaccept" <=> plan = {}))
Emit == Len(h) = H => CSVWrite("%1$s", <<ToJson([kind |-> Kind, h |-> h])>>, IOEnv.OUT)
=============================================================================
