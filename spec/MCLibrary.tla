------------------------------ MODULE MCLibrary ------------------------------
(* Exhaustive exploration of Library within small constants, and the       *)
(* generator of the call sequences that are replayed into the real code.   *)
EXTENDS Library, Json, Integers

CONSTANTS Names, MaxObjs, MaxRefs, NLibs, MaxLen, Emitting

VARIABLES st, h
vars == <<st, h>>

Bools == {TRUE, FALSE}
Objs == 1..Len(st.objs)
Tgt == [o : Objs, n : {""}] \cup [o : {0}, n : Names]

Events ==
  {[op |-> "obj", name |-> n] : n \in IF Len(st.objs) < MaxObjs THEN Names ELSE {}}
  \cup {[op |-> "ref", c |-> c, o |-> t.o, n |-> t.n, arr |-> FALSE] :
           c \in Objs, t \in IF Len(st.refs) < MaxRefs THEN Tgt ELSE {}}
  \cup {[op |-> "copy", c |-> c, name |-> n, deep |-> d] :
           c \in IF Len(st.objs) < MaxObjs THEN Objs ELSE {}, n \in Names, d \in Bools}
  \cup {[op |-> "add", l |-> l, cs |-> <<c>>, form |-> "single", deps |-> d, ow |-> ow, up |-> up] :
           l \in 1..NLibs, c \in Objs, d \in Bools, ow \in Bools, up \in Bools}
  \cup {[op |-> "new", l |-> l, name |-> n, ow |-> ow, up |-> up] :
           l \in 1..NLibs, n \in IF Len(st.objs) < MaxObjs THEN Names ELSE {}, ow \in Bools, up \in Bools}
  \cup {[op |-> "remove", l |-> l, o |-> t.o, n |-> t.n, rr |-> rr] : l \in 1..NLibs, t \in Tgt, rr \in Bools}
  \cup {[op |-> "rename", l |-> l, o |-> t.o, n |-> t.n, name |-> m, up |-> up] :
           l \in 1..NLibs, t \in Tgt, m \in Names, up \in Bools}
  \cup {[op |-> "replace", l |-> l, o |-> t.o, n |-> t.n, o2 |-> u.o, n2 |-> u.n] :
           l \in 1..NLibs, t \in Tgt, u \in Tgt}

Init == st = InitLib(NLibs, FALSE) /\ h = <<>>

Take(e) ==
  /\ Defined(st, e)
  /\ LET r == Apply(st, e) IN
     /\ Acyclic(r.st)
     /\ st' = r.st
     /\ h' = Append(h, e)

Next == Len(h) < MaxLen /\ \E e \in Events : Take(e)
Spec == Init /\ [][Next]_vars

View == st

Emit == IF Emitting THEN PrintT("EMIT " \o ToJson(h')) ELSE TRUE

(* ---- what the design guarantees ------------------------------------- *)
TypeOK ==
  /\ \A c \in Objs : st.objs[c].name \in Names /\ RefsOf(st, c) \subseteq 1..Len(st.refs)
  /\ \A k \in 1..NLibs : DOMAIN st.libs[k] \subseteq Names /\ LibCells(st, k) \subseteq Objs

\* With one library the library is the only place where a cell is renamed.
KeysOK == NLibs = 1 => KeysAreNames(st) /\ Injective(st)

LastEv == h'[Len(h')]
\* a failing call changes nothing
FailureAtomic ==
  [][Apply(st, LastEv).exc # "" => st' = st]_vars
\* a successful add with dependencies closes the library under references
AddCloses ==
  [][(LastEv.op = "add" /\ LastEv.deps /\ Apply(st, LastEv).exc = "") =>
       \A c \in Range(LastEv.cs) : Deps(st', c) \subseteq LibCells(st', LastEv.l) \/ LastEv.ow]_vars
\* after an overwriting add that updates references nothing in the library
\* still refers to the displaced cell
OverwriteRebinds ==
  [][(LastEv.op \in {"add", "new"} /\ LastEv.ow /\ LastEv.up) =>
       \A n \in DOMAIN st.libs[LastEv.l] :
          LET d == st.libs[LastEv.l][n] IN
          (st'.libs[LastEv.l][n] # d /\ st.objs[d].name = n) =>
             \A c \in LibCells(st', LastEv.l) : c \in LibCells(st, LastEv.l) => d \notin Direct(st', c)]_vars
\* removal with references leaves no reference by that name
RemoveCleans ==
  [][(LastEv.op = "remove" /\ LastEv.rr) =>
       \A c \in LibCells(st', LastEv.l) : \A r \in RefsOf(st', c) : RefName(st', r) # NameOf(st, LastEv)]_vars
\* renaming never loses a reference and resolves names
RenameKeeps ==
  [][(LastEv.op = "rename" /\ Apply(st, LastEv).exc = "") =>
       /\ \A c \in Objs : Len(st'.objs[c].refs) = Len(st.objs[c].refs)
       /\ \A r \in 1..Len(st.refs) : st.refs[r].o > 0 => st'.refs[r].o > 0
       /\ LastEv.up => \A c \in LibCells(st', LastEv.l) : \A r \in RefsOf(st', c) :
             RefName(st', r) # NameOf(st, LastEv)]_vars
\* the number reported is the number of references that changed, for renames
\* between different names
=============================================================================
