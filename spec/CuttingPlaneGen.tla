-------------------------- MODULE CuttingPlaneGen --------------------------
(* Writes every completed behaviour of CuttingPlane as one JSON line.      *)
EXTENDS CuttingPlane, Json, CSV, IOUtils
Emit == pc = "done" =>
          CSVWrite("%1$s", <<ToJson([mode |-> mode, budget |-> budget, hist |-> hist, result |-> result])>>, IOEnv.OUT)
=============================================================================
