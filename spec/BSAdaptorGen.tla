---------------------------- MODULE BSAdaptorGen ----------------------------
EXTENDS BSAdaptor, Json, CSV, IOUtils
Emit == pc = "idle" /\ Len(log) = MaxProbes =>
          CSVWrite("%1$s", <<ToJson([budget |-> budget, log |-> log, centre |-> centre])>>, IOEnv.OUT)
=============================================================================
