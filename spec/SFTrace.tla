-------------------------------- MODULE SFTrace --------------------------------
(* Recorded calls of the real spectral factorisation and its inverse.            *)
EXTENDS Spectral, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Must(p, c) == IF p THEN TRUE ELSE PrintT(<<"FAIL", l, c>>)
CloseS(u, v, tol, sc) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Close(u[i], v[i], tol, sc)
NumS(u) == \A i \in 1..Len(u) : RIsNum(u[i])
\* some frequency on a coarse grid with a clearly negative response
ClearlyNegative(r) == \E t \in 0..12 : RLt(Response(r, RDiv(RMul(RPi, t), 12)), RNeg(RMax("0.001", RMul("0.001", SumAbs(r)))))
TFact ==
  LET r == E.r IN
  IF E.kind = "valid"
  THEN IF E.err # "" THEN Must(FALSE, "valid autocorrelation refused with " \o E.err)
       ELSE /\ Must(E.real /\ NumS(E.h) /\ Len(E.h) = Len(r), "factor is not a real filter of the same length")
            /\ Must(CloseS(AutoCorr(E.h), r, "1e-6", r[1]), "factor does not have the given autocorrelation")
            /\ Must(MinPhase(E.h, "1.000001"), "factor is not minimum phase")
            /\ Must(CloseS(E.h, E.want, "1e-5", RSqrt(r[1])) \/ CloseS(E.h, [i \in 1..Len(E.want) |-> RNeg(E.want[i])], "1e-5", RSqrt(r[1])), "factor is not the minimum-phase filter")
  ELSE IF E.kind = "touching"
  THEN IF E.err # "" THEN Must(FALSE, "autocorrelation whose spectrum touches zero refused with " \o E.err)
       ELSE /\ Must(E.real /\ NumS(E.h) /\ Len(E.h) = Len(r), "factor is not a real filter of the same length")
            /\ Must(CloseS(AutoCorr(E.h), r, "0.05", r[1]), "factor of a spectrum touching zero does not have about the given autocorrelation")
  ELSE IF E.kind = "negative"
  THEN ClearlyNegative(r) => Must(E.err \in {"ValueError", "RuntimeError"}, "negative spectrum not refused with an error")
  ELSE Must(E.err \in {"ValueError", "RuntimeError"}, E.kind \o " input not refused with an error")
TInv == /\ Must(E.err = "" /\ Len(E.got) = Len(E.h), "inverse raised or has the wrong length")
        /\ (E.err = "" => Must(CloseS(E.got, AutoCorr(E.h), "1e-12", RAdd(AutoCorr(E.h)[1], 0)), "inverse is not the autocorrelation"))
Init == l = 1
Next ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1 /\ Must(E.same, "argument modified") /\ (IF E.ev = "fact" THEN TFact ELSE TInv)
  \/ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintT(<<"CONSUMED", Len(Trace)>>)
=============================================================================
