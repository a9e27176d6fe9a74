------------------------------ MODULE TraceGeom ------------------------------
(* Validates recorded geometric operations.                                 *)
EXTENDS Geom, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad
vars == <<t, l, bad>>

Clause(e) ==
  IF e.exc # "" THEN "outcome:" \o e.op \o ":" \o e.exc
  ELSE IF ~e.same THEN "operand changed"
  ELSE CASE e.op = "bool" -> BoolClause(e)
    [] e.op = "slice" -> SliceClause(e)
    [] e.op = "inside" -> InsideClause(e)
    [] e.op = "fracture" -> FractureClause(e)
    [] e.op = "offset" -> OffsetClause(e)
    [] OTHER -> "DRIVER: unknown event"

Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Step ==
  /\ bad = "" /\ l <= Len(Traces[t].ev)
  /\ LET c == Clause(Traces[t].ev[l])
     IN /\ bad' = c
        /\ l' = l + 1
        /\ IF c # "" \/ l' > Len(Traces[t].ev) THEN PrintT(<<"VERDICT", t, l, c>>) ELSE TRUE
  /\ UNCHANGED t
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
