------------------------------ MODULE TraceHier ------------------------------
(* Validates recorded histories of real layouts against Hier.              *)
EXTENDS Svg, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, st, bad
vars == <<t, l, st, bad>>

Gs(items) == Map(LAMBDA i : Canon(i.g), items)
SameBag(a, b) == Len(a) = Len(b) /\ (a = b \/ BagOf(a) = BagOf(b))
ListSet(s, S) == SetOf(s) = S /\ Len(s) = Cardinality(S)

CellView(s) == [c \in 1..Len(s.cells) |-> s.cells[c]]
\* contents of an element
SeenEl(x) ==
  CASE x.k = "poly"  -> <<SeenSet(x)>>
    [] x.k = "path"  -> <<SeenPath(x)>>
    [] x.k = "label" -> <<SeenLabel(x)>>
    [] x.k = "ref"   -> <<SeenRef(x)>>
RealEl(x) == SeenEl(x)

TargetOk(s, e) == TRUE

Query(s, e) ==
  CASE e.op = "gp" /\ e.spec = "none" ->
         IF SameBag(Map(Canon, e.ret.polys), Gs(ShowAt(s, e, e.depth))) THEN "" ELSE "get_polygons()"
    [] e.op = "gp" /\ e.spec = "key" ->
         IF SameBag(Map(Canon, e.ret.polys),
                    Gs(SelectSeq(ShowAt(s, e, e.depth), LAMBDA i : i.l = e.kl /\ i.d = e.kd)))
         THEN "" ELSE "get_polygons((layer, datatype))"
    [] e.op = "gp" /\ e.spec = "all" ->
         LET items == ShowAt(s, e, e.depth) IN
         IF ~ListSet(e.ret.keys, {i.k : i \in SetOf(items)}) THEN "keys of get_polygons(True)"
         ELSE IF SameBag(Map(LAMBDA i : <<i.k, Canon(i.g)>>, e.ret.items), Map(LAMBDA i : <<i.k, Canon(i.g)>>, items))
         THEN "" ELSE "get_polygons(True)"
    [] e.op = "gps" ->
         IF SameBag(Map(SeenSet, e.ret.sets), Map(SeenSet, SetsAt(s, e, "P"))) THEN "" ELSE "get_polygonsets"
    [] e.op = "gpaths" ->
         IF SameBag(Map(SeenPath, e.ret.sets), Map(SeenPath, SetsAt(s, e, "H"))) THEN "" ELSE "get_paths"
    [] e.op = "glabels" ->
         IF SameBag(Map(SeenLabel, e.ret.labels), Map(SeenLabel, LabelsAt(s, e)))
         THEN "" ELSE IF e.tr THEN "get_labels(set_transform)" ELSE "get_labels"
    [] e.op = "area" ->
         IF e.ret.v = (IF e.c > 0 THEN Area(s, e.c) ELSE AreaRef(s, s.el[e.e])) THEN "" ELSE "area()"
    [] e.op = "areaall" ->
         LET ks == IF e.c > 0 THEN Keys(s, e.c) ELSE IF s.el[e.e].o = 0 THEN {} ELSE Keys(s, s.el[e.e].o)
             A(k) == IF e.c > 0 THEN AreaKey(s, e.c, k) ELSE AreaKeyRef(s, s.el[e.e], k)
         IN IF ListSet(Map(LAMBDA i : <<i.l, i.d, i.v>>, e.ret.items), {<<k[1], k[2], A(k)>> : k \in ks})
            THEN "" ELSE "area(True)"
    [] e.op = "bbox" ->
         IF e.ret.b = (IF e.c > 0 THEN BBox(s, e.c) ELSE BBoxRef(s, s.el[e.e])) THEN "" ELSE "get_bounding_box"
    [] e.op = "boxof" ->
         \* any angle: the box against the polygons shown, both rounded
         LET w == BoxOf(Flat(e.ret.polys)) IN
         IF Len(e.ret.b) = Len(w) /\ \A i \in 1..Len(w) : Abs(e.ret.b[i] - w[i]) <= 1
         THEN "" ELSE "get_bounding_box under any angle"
    [] e.op = "layers" ->
         IF ListSet(e.ret.s, {k[1] : k \in Keys(s, e.c)} \cup {k[1] : k \in TextKeys(s, e.c)}) THEN "" ELSE "get_layers"
    [] e.op = "datatypes" ->
         IF ListSet(e.ret.s, {k[2] : k \in Keys(s, e.c)}) THEN "" ELSE "get_datatypes"
    [] e.op = "texttypes" ->
         IF ListSet(e.ret.s, {k[2] : k \in TextKeys(s, e.c)}) THEN "" ELSE "get_texttypes"
    [] e.op = "classes" ->
         IF ListSet(e.ret.ld, Keys(s, e.c)) /\ ListSet(e.ret.lt, TextKeys(s, e.c)) THEN "" ELSE "get_svg_classes"
    [] e.op = "deps" ->
         IF ListSet(e.ret.s, IF e.rec THEN Deps(s, e.c) ELSE Direct(s, e.c)) THEN "" ELSE "get_dependencies"
    [] e.op = "svg" -> SvgClause(s, e)
    [] e.op = "write" -> IF e.ret.same THEN "" ELSE "written output differs between two calls"
    [] e.op = "dump" ->
         IF e.ret.cells # CellView(s) THEN "lists of the cells"
         ELSE IF Len(e.ret.els) # Len(s.el) THEN "elements"
         ELSE LET ds == {i \in 1..Len(s.el) : e.ret.els[i].k # s.el[i].k \/ RealEl(e.ret.els[i]) # SeenEl(s.el[i])} IN
              IF ds = {} THEN ""
              ELSE LET i == CHOOSE x \in ds : \A y \in ds : x <= y IN
                   "contents of a " \o s.el[i].k \o " element"
    [] OTHER -> ""

ShapeCall(x) == <<Canon(x.g), x.l, x.d>>
Mutation(s, e) ==
  CASE e.op = "rmpoly" ->
         IF SameBag(Map(ShapeCall, e.ret.calls), Map(ShapeCall, Flat(Map(LAMBDA x : x.s, Els(s, s.cells[e.c].P)))))
         THEN "" ELSE "tests made by remove_polygons"
    [] e.op = "rmpath" -> IF SameBag(e.ret.ids, s.cells[e.c].H) THEN "" ELSE "tests made by remove_paths"
    [] e.op = "rmlabel" -> IF SameBag(e.ret.ids, s.cells[e.c].L) THEN "" ELSE "tests made by remove_labels"
    [] OTHER -> ""

Clause(s, e) ==
  LET want == IF e.op = "badadd" THEN "ValueError" ELSE "" IN
  IF e.ret.exc # want THEN "outcome:" \o e.op \o ":" \o e.ret.exc
  ELSE IF e.op \in Mutators
  THEN LET m == Mutation(s, e) IN
       IF m # "" THEN m
       ELSE IF Map(LAMBDA c : <<c.P, c.H, c.L, c.R, c.name>>, e.ret.lists)
               # Map(LAMBDA c : <<c.P, c.H, c.L, c.R, c.name>>, Apply(s, e).cells) THEN "lists of the cells after " \o e.op
       ELSE ""
  ELSE LET q == Query(s, e) IN
       IF q = "" THEN "" ELSE q \o (IF e.after = "" THEN "" ELSE " after " \o e.after)

Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ st = InitHier
Step ==
  /\ bad = "" /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         c == Clause(st, e)
     IN /\ bad' = c
        /\ st' = IF c = "" THEN Apply(st, e) ELSE st
        /\ l' = l + 1
        /\ IF c # "" \/ l' > Len(Traces[t].ev) THEN PrintT(<<"VERDICT", t, l, c>>) ELSE TRUE
  /\ UNCHANGED t
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
