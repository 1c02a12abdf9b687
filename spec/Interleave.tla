------------------------------- MODULE Interleave -------------------------------
(* Two independent instances, each with its own short script (creation included).  *)
(* Every interleaving is written out and executed; each instance must give what it *)
(* gives when it runs alone (module InterTrace).  In this model an instance is the *)
(* record of its own steps, and NoInfluence says that nothing else enters it.      *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Kinds, Steps
VARIABLES ka, kb, a, b, seq
vars == <<ka, kb, a, b, seq>>
Init == ka \in Kinds /\ kb \in Kinds /\ a = <<>> /\ b = <<>> /\ seq = <<>>
StepA == Len(a) < Steps /\ a' = Append(a, Len(a)) /\ seq' = Append(seq, 1) /\ UNCHANGED <<ka, kb, b>>
StepB == Len(b) < Steps /\ b' = Append(b, Len(b)) /\ seq' = Append(seq, 2) /\ UNCHANGED <<ka, kb, a>>
Next == StepA \/ StepB
Spec == Init /\ [][Next]_vars
Alone(k) == [i \in 1..k |-> i - 1]
NoInfluence == a = Alone(Len(a)) /\ b = Alone(Len(b))
Emit == Len(a) = Steps /\ Len(b) = Steps => CSVWrite("%1$s", <<ToJson([a |-> ka, b |-> kb, seq |-> seq])>>, IOEnv.OUT)
=============================================================================
