----------------------------- MODULE BSearchGen -----------------------------
EXTENDS BSearch, Json, CSV, IOUtils
MCBrackets == {<<"int", "0", "1">>, <<"int", "0", "10">>, <<"int", "-7", "6">>, <<"int", "-9", "-2">>, <<"int", "3", "3">>,
               <<"int", "0", "1000001">>,
               <<"real", "0", "1">>, <<"real", "-3", "5">>, <<"real", "-1", "-1/4">>, <<"real", "1/2", "1/2">>,
               <<"real", "1024", "4096">>, <<"real", "0", "3/1024">>}
MCTols == {"1/1000000000000000000000", "1/8", "1/2", "1", "3", "2"}
Emit == pc = "done" =>
   CSVWrite("%1$s", <<ToJson([type |-> type, lo |-> lo0, up |-> up0, tol |-> tol, budget |-> budget,
                              probes |-> probes, result |-> result, n |-> n])>>, IOEnv.OUT)
=============================================================================
