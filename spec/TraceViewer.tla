----------------------------- MODULE TraceViewer -----------------------------
(* Validates what real viewers showed against Viewer.                       *)
EXTENDS Viewer, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, st, vw, bad
vars == <<t, l, st, vw, bad>>

Built(tr) == FoldLeft(LAMBDA s, e : Apply(s, e), InitHier, tr.build)
None == [on |-> FALSE]
Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ st = Built(Traces[t]) /\ vw = None
Step ==
  /\ bad = "" /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         raised == e.ret.exc # ""
         v == IF raised THEN vw ELSE Acted(st, vw, e)
         c == ViewClause(st, vw, v, e)
     IN /\ bad' = c
        /\ vw' = IF c = "" THEN Learn(v, e.ret) ELSE vw
        /\ l' = l + 1
        /\ IF c # "" \/ l' > Len(Traces[t].ev) THEN PrintT(<<"VERDICT", t, l, c>>) ELSE TRUE
  /\ UNCHANGED <<t, st>>
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
