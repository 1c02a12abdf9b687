----------------------------- MODULE SpectralModel -----------------------------
(* Filters built from integer-ratio zeros: each zero z = a/b may be reflected to  *)
(* 1/z without changing the autocorrelation (up to the gain), so a filter with    *)
(* all zeros inside is the one the factorisation must find.                       *)
EXTENDS Spectral, Json, CSV, IOUtils
CONSTANTS Zs, D, MaxN        \* zeros z/D with z in Zs - D ... (shifted: no negative constants)
VARIABLES h, m, used         \* h: filter with some zeros reflected, m: all inside
vars == <<h, m, used>>
Conv2(p, a, b) == Force([i \in 1..(Len(p)+1) |->     \* times (a + b z^-1)
   RAdd(IF i <= Len(p) THEN RMul(a, p[i]) ELSE 0, IF i > 1 THEN RMul(b, p[i-1]) ELSE 0)])
Init == h = <<1>> /\ m = <<1>> /\ used = <<>>
Add == /\ Len(h) < MaxN
       /\ \E z \in Zs, flip \in BOOLEAN :
            LET a == z - D IN
            /\ a # 0
            /\ m' = Conv2(m, D, -a)
            /\ h' = IF flip THEN Conv2(h, -a, D) ELSE Conv2(h, D, -a)
            /\ used' = Append(used, <<a, flip>>)
Next == Add
Spec == Init /\ [][Next]_vars
SameAuto == AutoCorr(h) = AutoCorr(m)
Inner == MinPhase(m, 1)
OuterFails == (\E i \in 1..Len(used) : used[i][2]) => ~MinPhase(h, 1)
Positive == \A t \in 0..6 : RLt(0, Response(AutoCorr(h), RDiv(RMul(RPi, t), 6)))
Str(s) == [i \in 1..Len(s) |-> RStr(s[i])]
Emit == CSVWrite("%1$s", <<ToJson([h |-> Str(h), m |-> Str(m)])>>, IOEnv.OUT)
=============================================================================
