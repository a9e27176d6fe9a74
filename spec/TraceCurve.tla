------------------------------ MODULE TraceCurve ------------------------------
(* Validates recorded histories of curves.                                    *)
EXTENDS Curve, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, st, bad
vars == <<t, l, st, bad>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = Start(<<0, 0>>) /\ bad = ""
Step ==
  /\ bad = "" /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         c == CurveClause(st, e)
     IN /\ bad' = c
        /\ l' = l + 1
        /\ st' = IF c = "" THEN CurveNext(st, e) ELSE st
        /\ IF c # "" \/ l' > Len(Traces[t].ev) THEN PrintT(<<"VERDICT", t, l, c>>) ELSE TRUE
  /\ UNCHANGED t
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
