------------------------------ MODULE TraceFlexPath ------------------------------
(* Validates recorded histories of flexible paths.                                    *)
EXTENDS FlexPath, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, st, bad
vars == <<t, l, st, bad>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = <<>> /\ bad = ""
Step ==
  /\ bad = "" /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         c == Clause(st, e)
     IN /\ bad' = c
        /\ l' = l + 1
        /\ st' = IF c = "" THEN Next1(st, e) ELSE st
        /\ IF c # "" \/ l' > Len(Traces[t].ev) THEN PrintT(<<"VERDICT", t, l, c>>) ELSE TRUE
  /\ UNCHANGED t
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
