---------------------------- MODULE TraceLibrary ----------------------------
(* Validates recorded histories of real Cell/GdsLibrary calls.             *)
EXTENDS Library, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, st, bad
vars == <<t, l, st, bad>>

\* the projection of the real state recorded after every call
SeenObjs(p) == p.objs
SpecObjs(s) == [c \in 1..Len(s.objs) |->
   [name |-> s.objs[c].name,
    refs |-> [i \in 1..Len(s.objs[c].refs) |->
       LET r == s.refs[s.objs[c].refs[i]] IN
       [id |-> s.objs[c].refs[i], o |-> r.o, n |-> IF r.o > 0 THEN "" ELSE r.n]]]]
SpecLibs(s) == [k \in 1..Len(s.libs) |-> {<<n, s.libs[k][n]>> : n \in DOMAIN s.libs[k]}]
SeenLibs(p) == [k \in 1..Len(p.libs) |-> {<<p.libs[k][i].k, p.libs[k][i].v>> : i \in 1..Len(p.libs[k])}]

Clause(s, e) ==
  LET r == Apply(s, e) IN
  CASE e.ret.exc # r.exc -> "outcome:" \o e.op
    \* a cell bound to two names (renamed through another library) may be counted for both
    [] e.ret.exc = "" /\ e.ret.n # r.n /\ ~(e.op \in {"replace", "rename"} /\ Cardinality(LibCells(s, e.l)) # Cardinality(DOMAIN s.libs[e.l])) -> "count:" \o e.op
    [] e.ret.exc = "" /\ e.op \in {"top", "deps"} /\ (Range(e.ret.s) # r.s \/ Len(e.ret.s) # Cardinality(r.s)) -> "result:" \o e.op
    [] SeenLibs(e.post) # SpecLibs(r.st) -> "libraries after " \o e.op
    [] SeenObjs(e.post) # SpecObjs(r.st) -> "cells and references after " \o e.op
    [] OTHER -> ""

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ bad = ""
        /\ st = InitLib(Traces[t].nlibs, Traces[t].cur)

Step ==
  /\ bad = "" /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         c == IF ~Defined(st, e) THEN "" ELSE Clause(st, e)
         stop == ~Defined(st, e)
     IN /\ bad' = c
        /\ st' = IF c = "" /\ ~stop THEN Apply(st, e).st ELSE st
        /\ l' = IF stop THEN Len(Traces[t].ev) + 1 ELSE l + 1
        /\ IF c # "" \/ l' > Len(Traces[t].ev) THEN PrintT(<<"VERDICT", t, l, c>>) ELSE TRUE
  /\ UNCHANGED t
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
