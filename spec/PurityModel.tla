------------------------------ MODULE PurityModel ------------------------------
(* Orders in which the public operations are called on the same arrays.           *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Ops, H
VARIABLE h
Init == h = <<>>
Next == Len(h) < H /\ \E o \in Ops : h' = Append(h, o)
Spec == Init /\ [][Next]_h
Emit == Len(h) = H => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
