----------------------------- MODULE LowpassModel -----------------------------
(* The round-robin scans: three positions that survive from one assessment to  *)
(* the next.  Each assessed point violates one constraint or none; it must be  *)
(* found from every scan position.  Histories are written out and realised by  *)
(* filters that violate exactly that constraint.                               *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS NP, NS, M, H, Write     \* passband 0..NP-1, transition NP..NS-1, stopband NS..M-1
VARIABLES i1, i2, i3, found, h
vars == <<i1, i2, i3, found, h>>
None == [t |-> "none", k |-> 0]
Cases == {None} \cup {[t |-> "passup", k |-> k] : k \in 0..(NP-1)} \cup {[t |-> "passlow", k |-> k] : k \in 0..(NP-1)}
         \cup {[t |-> "stopup", k |-> k] : k \in NS..(M-1)} \cup {[t |-> "stoplow", k |-> k] : k \in NS..(M-1)}
         \cup {[t |-> "translow", k |-> k] : k \in NP..(NS-1)}
Init == i1 = 0 /\ i2 = NP /\ i3 = NS /\ found = None /\ h = <<>>
\* advance, wrap, look; at most one round
RECURSIVE Scan(_, _, _, _, _)
Scan(i, lo, hi, bad, left) ==
  IF left = 0 THEN [i |-> i, hit |-> FALSE]
  ELSE LET j == IF i + 1 = hi THEN lo ELSE i + 1 IN
       IF j = bad THEN [i |-> j, hit |-> TRUE] ELSE Scan(j, lo, hi, bad, left - 1)
Assess(c) ==
  LET in(ts) == IF c.t \in ts THEN c.k ELSE -1
      a == Scan(i1, 0, NP, in({"passup", "passlow"}), NP)
      b == Scan(i3, NS, M, in({"stopup", "stoplow"}), M - NS)
      d == Scan(i2, NP, NS, in({"translow"}), NS - NP)
  IN /\ i1' = a.i
     /\ i3' = IF a.hit THEN i3 ELSE b.i
     /\ i2' = IF a.hit \/ b.hit THEN i2 ELSE d.i
     /\ found' = IF a.hit \/ b.hit \/ d.hit THEN c ELSE None
     /\ h' = IF Write THEN Append(h, c) ELSE <<c>>
Next == (Write => Len(h) < H) /\ \E c \in Cases : Assess(c)
Spec == Init /\ [][Next]_vars
TypeOK == i1 \in 0..(NP-1) /\ i3 \in NS..(M-1) /\ (NP < NS => i2 \in NP..(NS-1))
Finds == h # <<>> => found = h[Len(h)]
Emit == Write /\ Len(h) = H => CSVWrite("%1$s", <<ToJson([np |-> NP, ns |-> NS, m |-> M, h |-> h])>>, IOEnv.OUT)
=============================================================================
