------------------------------ MODULE TraceGdsii ------------------------------
(* Validates recorded writing, reading and handling of GDSII streams.       *)
EXTENDS Gdsii, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, st, bad
vars == <<t, l, st, bad>>

\* st.files: Seq of byte sequences; st.hashes: Seq of <<file, engine, hash>>
InitSt == [files |-> <<>>, hashes |-> <<>>]
Creates == {"write", "load", "stamp"}

ItemOk(s, b, R, c, it) ==
  IF it.kind = "bin"
  THEN \E x \in SetOf(StructBytes(s.files[it.file])) :
          x.name = it.name /\ x.bytes = SubSeq(b, R[c.from].i, R[c.to].i + 3)
  ELSE c.name = it.name /\ c.ts = Stamp(it.ts) /\ CellOk(c.els, it.els)

WriteClause(s, e) ==
  LET b == e.ret.bytes
      R == Records(b)
      L == Library(R)
  IN IF ~L.ok THEN "well-formed stream (record " \o ToString(IF L.i <= Len(R) THEN R[L.i].t ELSE -2) \o ")"
     ELSE IF \E i \in 1..Len(R) : R[i].t \in {LIBNAME, STRNAME, SNAME, CHARS, PROPVALUE} /\ Len(R[i].p) % 2 = 1 THEN "padding"
     ELSE IF R[1].p # <<2, 88>> THEN "version"
     ELSE IF L.name # e.name THEN "library name"
     ELSE IF L.ts # Stamp(e.ts) THEN "library timestamp"
     ELSE IF L.meters \notin SetOf(e.meters) \/ L.user \notin SetOf(e.user) THEN "units"
     ELSE IF Len(L.cells) # Len(e.items) THEN "number of structures"
     ELSE LET w == {i \in 1..Len(L.cells) : ~ItemOk(s, b, R, L.cells[i], e.items[i])} IN
          IF w = {} THEN ""
          ELSE LET i == CHOOSE x \in w : \A y \in w : x <= y
                   it == e.items[i]
                   c == L.cells[i]
               IN IF it.kind = "bin" THEN "binary structure"
                  ELSE IF c.name # it.name THEN "structure name"
                  ELSE IF c.ts # Stamp(it.ts) THEN "structure timestamp"
                  ELSE LET got == BagOf(Map(Normal, c.els))
                           want == BagOf(Flat(Map(Expected, it.els)))
                           d == {x \in DOMAIN want : x \notin DOMAIN got \/ got[x] # want[x]}
                       IN IF d = {} THEN "more elements than in the layout"
                          ELSE "element " \o (CHOOSE x \in d : TRUE).k

\* the same stream, with the elements of every structure grouped by kind
OfKind(els, ks) == SelectSeq(els, LAMBDA x : x.k \in ks)
SameByKind(a, b) ==
  \/ a = b
  \/ LET A == Decode(a) B == Decode(b) IN
     /\ A.ok /\ B.ok /\ A.name = B.name /\ A.ts = B.ts /\ A.user = B.user /\ A.meters = B.meters
     /\ Len(A.cells) = Len(B.cells)
     /\ \A i \in 1..Len(A.cells) :
          LET x == A.cells[i] y == B.cells[i] IN
          /\ x.name = y.name /\ x.ts = y.ts /\ Len(x.els) = Len(y.els)
          /\ \A ks \in {{"boundary"}, {"path"}, {"text"}, {"sref", "aref"}} : OfKind(x.els, ks) = OfKind(y.els, ks)

SeenReal(x) == [x EXCEPT !.pr = SetOf(@)]
ReadClause(s, e) ==
  LET L == Library(Records(Trim(s.files[e.f])))
      names == {NameOf(e.o, L.cells[c].name) : c \in 1..Len(L.cells)} \cup SetOf(e.old)
  IN IF e.ret.name # L.name THEN "library name read"
     ELSE IF e.ret.lu # (IF e.o.mode = "import" THEN (e.o.pm \div e.o.user) * 10000 ELSE e.o.lu) THEN "unit of the library"
     ELSE IF e.ret.pm # (IF e.o.mode = "import" THEN e.o.pm ELSE e.o.lp) THEN "precision of the library"
     ELSE IF Map(LAMBDA c : c.name, e.ret.cells) # Map(LAMBDA c : NameOf(e.o, c.name), L.cells) THEN "names of the cells read"
     ELSE LET w == {i \in 1..Len(L.cells) :
                      BagOf(Map(SeenReal, e.ret.cells[i].els)) # ReadCell(e.o, L.cells[i], e.angs, names).els}
          IN IF w = {} THEN ""
             ELSE LET i == CHOOSE x \in w : \A y \in w : x <= y
                      want == ReadCell(e.o, L.cells[i], e.angs, names).els
                      got == BagOf(Map(SeenReal, e.ret.cells[i].els))
                      d == {x \in DOMAIN want : x \notin DOMAIN got \/ got[x] # want[x]}
                  IN IF d = {} THEN "more elements read than are in the stream"
                     ELSE "element read as " \o (CHOOSE x \in d : TRUE).k

Clause(s, e) ==
  IF e.op = "load"
  THEN IF Decode(Trim(e.ret.bytes)).ok THEN "" ELSE "DRIVER: illegal stream"
  ELSE IF e.ret.exc # "" THEN "outcome:" \o e.op \o ":" \o e.ret.exc
  ELSE CASE e.op = "write" -> WriteClause(s, e)
    [] e.op = "read" -> ReadClause(s, e)
    [] e.op = "rewrite" -> IF SameByKind(e.ret.bytes, s.files[e.f]) THEN "" ELSE "writing what was read"
    [] e.op = "units" ->
         IF e.ret.pm # e.pm THEN "precision of the file" ELSE IF e.ret.lu # e.lu THEN "unit of the file" ELSE ""
    [] e.op = "binary" ->
         LET B == SetOf(StructBytes(Trim(s.files[e.f]))) IN
         IF SetOf(e.ret.cells) = B /\ Len(e.ret.cells) = Cardinality(B) THEN "" ELSE "binary cells of the file"
    [] e.op = "stamp" ->
         IF e.ret.bytes = Stamped(Trim(s.files[e.f]), e.ts)
                          \o SubSeq(s.files[e.f], Len(Trim(s.files[e.f])) + 1, Len(s.files[e.f])) THEN "" ELSE "timestamps set"
    [] e.op = "hash" ->
         LET c == Contents(Trim(s.files[e.f]))
             w == {i \in 1..Len(s.hashes) : s.hashes[i].eng = e.eng
                     /\ ((s.hashes[i].h = e.ret.h) # (Contents(Trim(s.files[s.hashes[i].f])) = c))}
         IN IF w = {} THEN ""
            ELSE IF \E i \in w : s.hashes[i].h = e.ret.h THEN "same hash for different contents"
            ELSE "different hashes for the same contents"
    [] e.op = "real" ->
         IF ~InRange(e.v) THEN ""
         ELSE IF e.ret.bytes # Enc(e.v) THEN "real number written" ELSE ""
    [] e.op = "unreal" -> IF e.ret.v = Real(e.b, 1) THEN "" ELSE "real number read"
    [] OTHER -> "DRIVER: unknown event"

Apply2(s, e) ==
  CASE e.op \in Creates -> [s EXCEPT !.files = Append(@, e.ret.bytes)]
    [] e.op = "hash" -> [s EXCEPT !.hashes = Append(@, [f |-> e.f, eng |-> e.eng, h |-> e.ret.h])]
    [] OTHER -> s

Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ st = InitSt
Step ==
  /\ bad = "" /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         c == Clause(st, e)
     IN /\ bad' = c
        /\ st' = IF c = "" THEN Apply2(st, e) ELSE st
        /\ l' = l + 1
        /\ IF c # "" \/ l' > Len(Traces[t].ev) THEN PrintT(<<"VERDICT", t, l, c>>) ELSE TRUE
  /\ UNCHANGED t
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
