------------------------------- MODULE Library -------------------------------
(***************************************************************************)
(* The library layer of gdspy: cell objects, the references they hold and  *)
(* libraries that map names to cells.                                      *)
(*                                                                         *)
(* State (a record st):                                                    *)
(*   objs  Seq of [name, refs], refs a Seq of indices into st.refs         *)
(*   refs  Seq of [o, n]: a reference bound to cell object o (o > 0), or   *)
(*         by name n only (o = 0).  References are objects with identity:  *)
(*         a shallow copy of a cell shares them.                           *)
(*   libs  Seq of functions name -> object index                           *)
(*   cur   whether new cells register in the last library (the deprecated  *)
(*         global current library)                                         *)
(*                                                                         *)
(* One operator per public call; every operator maps a state and the       *)
(* arguments of the call to [st, exc, n, s]: the new state, the exception  *)
(* class ("" for none), the integer and the set returned.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(f) == {f[x] : x \in DOMAIN f}
Res(st, exc, n, s) == [st |-> st, exc |-> exc, n |-> n, s |-> s]
Fail(st) == Res(st, "ValueError", 0, {})

EmptyLib == <<>>
InitLib(nlibs, cur) ==
  [objs |-> <<>>, refs |-> <<>>, libs |-> [l \in 1..nlibs |-> EmptyLib], cur |-> cur]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

RefName(st, r) ==
  IF st.refs[r].o > 0 THEN st.objs[st.refs[r].o].name ELSE st.refs[r].n

RefsOf(st, c) == Range(st.objs[c].refs)

\* cells c refers to directly, as objects
Direct(st, c) == {st.refs[r].o : r \in RefsOf(st, c)} \ {0}

RECURSIVE Reach(_, _, _)
Reach(st, front, acc) ==
  IF front = {} THEN acc
  ELSE LET nxt == UNION {Direct(st, c) : c \in front} IN
       Reach(st, nxt \ acc, acc \cup nxt)
Deps(st, c) == Reach(st, {c}, {})

Acyclic(st) == \A c \in 1..Len(st.objs) : c \notin Deps(st, c)

LibCells(st, l) == Range(st.libs[l])

(* ---- creating cells and references --------------------------------- *)

CanRegister(st, name) ==
  ~st.cur \/ name \notin DOMAIN st.libs[Len(st.libs)]

AppendObj(st, name, refs) ==
  LET id == Len(st.objs) + 1
      s1 == [st EXCEPT !.objs = Append(@, [name |-> name, refs |-> refs])]
  IN IF st.cur THEN [s1 EXCEPT !.libs[Len(st.libs)] = Put(@, name, id)] ELSE s1

NewObj(st, name) ==
  IF ~CanRegister(st, name) THEN Fail(st)
  ELSE Res(AppendObj(st, name, <<>>), "", 0, {})

AddRef(st, c, o, n) ==
  LET r == Len(st.refs) + 1 IN
  Res([st EXCEPT !.refs = Append(@, [o |-> o, n |-> n]),
                 !.objs[c].refs = Append(@, r)], "", 0, {})

CopyCell(st, c, name, deep) ==
  IF ~CanRegister(st, name) THEN Fail(st)
  ELSE IF ~deep THEN Res(AppendObj(st, name, st.objs[c].refs), "", 0, {})
  ELSE LET old == st.objs[c].refs
           base == Len(st.refs)
           s1 == [st EXCEPT !.refs = @ \o [i \in 1..Len(old) |-> st.refs[old[i]]]]
       IN Res(AppendObj(s1, name, [i \in 1..Len(old) |-> base + i]), "", 0, {})

(* ---- rebinding references ------------------------------------------ *)

\* all references held by cells of library l whose current name is `old`
Matching(st, l, old) ==
  {r \in UNION {RefsOf(st, c) : c \in LibCells(st, l)} : RefName(st, r) = old}

Occurrences(st, l, P(_)) ==
  LET cs == LibCells(st, l)
      cnt[S \in SUBSET cs] ==
        IF S = {} THEN 0
        ELSE LET c == CHOOSE x \in S : TRUE IN
             Len(SelectSeq(st.objs[c].refs, P)) + cnt[S \ {c}]
  IN cnt[cs]

\* new: [o, n] as in refs
Rebind(st, l, old, new) ==
  LET m == Matching(st, l, old) IN
  [st EXCEPT !.refs = [r \in 1..Len(@) |-> IF r \in m THEN new ELSE @[r]]]

NewNameOf(st, new) == IF new.o > 0 THEN st.objs[new.o].name ELSE new.n

RebindCount(st, l, old, new) ==
  IF NewNameOf(st, new) = old
  THEN Occurrences(st, l, LAMBDA r : RefName(st, r) = old)
  ELSE Cardinality(Matching(st, l, old))

(* ---- GdsLibrary ----------------------------------------------------- *)

Closure(st, cs, deps) ==
  cs \cup (IF deps THEN UNION {Deps(st, c) : c \in cs} ELSE {})

\* two distinct cells under one name, or a name already bound to another cell
Clash(st, l, S) ==
  \/ \E a, b \in S : a # b /\ st.objs[a].name = st.objs[b].name
  \/ \E a \in S : /\ st.objs[a].name \in DOMAIN st.libs[l]
                  /\ st.libs[l][st.objs[a].name] # a

Bind(st, l, S) ==
  [st EXCEPT !.libs[l] =
     [x \in DOMAIN @ \cup {st.objs[a].name : a \in S} |->
        IF \E a \in S : st.objs[a].name = x
        THEN CHOOSE a \in S : st.objs[a].name = x
        ELSE @[x]]]

\* names of l that S takes over from another cell
Taken(st, l, S) ==
  {a \in S : /\ st.objs[a].name \in DOMAIN st.libs[l]
             /\ st.libs[l][st.objs[a].name] # a}

RECURSIVE RebindAll(_, _, _)
RebindAll(st, l, S) ==
  IF S = {} THEN st
  ELSE LET a == CHOOSE x \in S : TRUE IN
       RebindAll(Rebind(st, l, st.objs[a].name, [o |-> a, n |-> ""]), l, S \ {a})

\* An overwriting add is only specified where its outcome cannot depend on
\* the order in which the cells are visited.
AddDefined(st, l, cs, deps, ow, up) ==
  LET S == Closure(st, cs, deps) IN
  ow => /\ \A a, b \in S : a # b => st.objs[a].name # st.objs[b].name
        /\ up => \A a \in Taken(st, l, S) : \A b \in S \ LibCells(st, l) :
                   \A r \in RefsOf(st, b) :
                      RefName(st, r) = st.objs[a].name => st.refs[r].o = a
        \* cells that lose their name to another one may be visited or not
        /\ up => \A a \in Taken(st, l, S) : \A b \in Taken(st, l, S) \ {a} :
                   \A r \in RefsOf(st, st.libs[l][st.objs[b].name]) :
                      RefName(st, r) = st.objs[a].name => st.refs[r].o = a

\* Adding is all or nothing.
Add(st, l, cs, deps, ow, up) ==
  LET S == Closure(st, cs, deps) IN
  IF ~ow /\ Clash(st, l, S) THEN Fail(st)
  ELSE LET s1 == IF ow /\ up THEN RebindAll(st, l, Taken(st, l, S)) ELSE st
       IN Res(Bind(s1, l, S), "", 0, {})

NewCell(st, l, name, ow, up) ==
  IF ~ow /\ name \in DOMAIN st.libs[l] THEN Fail(st)
  ELSE LET s1 == AppendObj(st, name, <<>>)
       IN Add(s1, l, {Len(s1.objs)}, FALSE, ow, up)

\* removal is by name, whatever object is given
RemoveCell(st, l, name, rr) ==
  LET s1 == [st EXCEPT !.libs[l] = Del(@, name)]
      cs == LibCells(s1, l)
      n == IF rr THEN Occurrences(s1, l, LAMBDA r : RefName(st, r) = name) ELSE 0
      s2 == IF rr
            THEN [s1 EXCEPT !.objs = [c \in 1..Len(@) |->
                    IF c \in cs
                    THEN [@[c] EXCEPT !.refs = SelectSeq(@, LAMBDA r : RefName(st, r) # name)]
                    ELSE @[c]]]
            ELSE s1
  IN Res(s2, "", n, {})

ReplaceRefs(st, l, old, new) ==
  LET nw == IF new.o = 0 /\ new.n \in DOMAIN st.libs[l]
            THEN [o |-> st.libs[l][new.n], n |-> ""] ELSE new
  IN Res(Rebind(st, l, old, nw), "", RebindCount(st, l, old, nw), {})

\* o: the cell object given (0: given by name `old`)
Rename(st, l, o, old, name, up) ==
  IF old \notin DOMAIN st.libs[l] THEN Fail(st)
  ELSE IF o > 0 /\ st.libs[l][old] # o THEN Fail(st)
  ELSE IF name \in DOMAIN st.libs[l] THEN Fail(st)
  ELSE LET c == st.libs[l][old]
           s1 == [st EXCEPT !.libs[l] = Put(Del(@, old), name, c),
                            !.objs[c].name = name]
       IN IF up THEN ReplaceRefs(s1, l, old, [o |-> c, n |-> ""])
          ELSE Res(s1, "", 0, {})

Extract(st, l, o, ow) ==
  Add(st, Len(st.libs), {o}, TRUE, ow, TRUE)

TopLevel(st, l) ==
  Res(st, "", 0, LibCells(st, l) \ UNION {Direct(st, c) : c \in LibCells(st, l)})

Dependencies(st, c, rec) ==
  Res(st, "", 0, IF rec THEN Deps(st, c) ELSE Direct(st, c))

(* ---- one entry point: a call as a record ---------------------------- *)

NameOf(st, e) == IF e.o > 0 THEN st.objs[e.o].name ELSE e.n

Apply(st, e) ==
  CASE e.op = "obj"     -> NewObj(st, e.name)
    [] e.op = "ref"     -> AddRef(st, e.c, e.o, e.n)
    [] e.op = "copy"    -> CopyCell(st, e.c, e.name, e.deep)
    [] e.op = "add"     -> Add(st, e.l, Range(e.cs), e.deps, e.ow, e.up)
    [] e.op = "new"     -> NewCell(st, e.l, e.name, e.ow, e.up)
    [] e.op = "remove"  -> RemoveCell(st, e.l, NameOf(st, e), e.rr)
    [] e.op = "rename"  -> Rename(st, e.l, e.o, NameOf(st, e), e.name, e.up)
    [] e.op = "replace" -> ReplaceRefs(st, e.l, NameOf(st, e), [o |-> e.o2, n |-> e.n2])
    [] e.op = "top"     -> TopLevel(st, e.l)
    [] e.op = "deps"    -> Dependencies(st, e.c, e.rec)
    [] e.op = "extract" -> Extract(st, e.l, e.o, e.ow)

\* calls whose outcome this specification pins down
Defined(st, e) ==
  CASE e.op \in {"add"} -> AddDefined(st, e.l, Range(e.cs), e.deps, e.ow, e.up)
    [] e.op = "extract" -> AddDefined(st, Len(st.libs), {e.o}, TRUE, e.ow, TRUE)
    [] e.op = "new"     -> ~st.cur
    [] OTHER            -> TRUE

(* ---- properties ----------------------------------------------------- *)

\* every key of a library is the name of the cell it maps to
KeysAreNames(st) ==
  \A l \in 1..Len(st.libs) : \A n \in DOMAIN st.libs[l] :
     st.objs[st.libs[l][n]].name = n

\* no two names of one library denote the same cell
Injective(st) ==
  \A l \in 1..Len(st.libs) : \A m, n \in DOMAIN st.libs[l] :
     st.libs[l][m] = st.libs[l][n] => m = n
=============================================================================
