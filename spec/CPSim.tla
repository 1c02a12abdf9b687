------------------------------- MODULE CPSim -------------------------------
(* Long behaviours of CuttingPlane for random simulation: nothing that ends *)
(* the run happens before iteration stopAt, anything may afterwards.        *)
EXTENDS CuttingPlaneGen
VARIABLE stopAt
SInit == Init /\ stopAt \in {0, budget \div 3, budget \div 2, budget - 1, budget}
SNext == /\ Next
         /\ UNCHANGED stopAt
         /\ iter < stopAt => /\ pc = "ask" => pc' # "done"
                             /\ pc = "update" => ~StopNow'
=============================================================================
