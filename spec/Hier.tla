-------------------------------- MODULE Hier --------------------------------
(***************************************************************************)
(* The layout layer of gdspy: cells hold polygon sets, paths, labels and   *)
(* references (single or arrays) to other cells; elements are objects with *)
(* identity and can be shared between cells.                               *)
(*                                                                         *)
(* State st:                                                               *)
(*   el     Seq of elements (the heap):                                    *)
(*     [k |-> "poly", s |-> Seq of shapes, pr]                             *)
(*     [k |-> "path", s |-> Seq of shapes (outline of each element), pr]   *)
(*     [k |-> "label", t, x, y, an, ly, tt, q, th, m, xr, pr]              *)
(*     [k |-> "ref", o, n, x, y, q, th, m, xr, co, ro, sx, sy, pr]         *)
(*   cells  Seq of [name, P, H, L, R], sequences of heap indices           *)
(* A shape is [g |-> Seq of points, l, d, a].                              *)
(*                                                                         *)
(* Numbers.  Coordinates are integers counting 1/1000 of a unit.  An angle *)
(* is 90q + th*atan2(4,3), so every rotation is rational; a magnification  *)
(* is m/64; an area a is counted in 1/128 of a square unit.  Histories     *)
(* only use these where all results are integers.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

SC == 1000
ONE == 64            \* magnification 1

SetOf(s) == {s[i] : i \in 1..Len(s)}
Map(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
Flat(ss) == FlattenSeq(ss)
BagOf(s) == [x \in SetOf(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

(* ---- points and angles ---------------------------------------------- *)
RotQ(p, q) ==
  CASE q % 4 = 0 -> p
    [] q % 4 = 1 -> <<-p[2], p[1]>>
    [] q % 4 = 2 -> <<-p[1], -p[2]>>
    [] OTHER     -> <<p[2], -p[1]>>
RotP(p) == <<(3 * p[1] - 4 * p[2]) \div 5, (4 * p[1] + 3 * p[2]) \div 5>>
RotN(p) == <<(3 * p[1] + 4 * p[2]) \div 5, (3 * p[2] - 4 * p[1]) \div 5>>
RECURSIVE RotT(_, _)
RotT(p, th) == IF th = 0 THEN p
               ELSE IF th > 0 THEN RotT(RotP(p), th - 1)
               ELSE RotT(RotN(p), th + 1)
Rot(p, q, th) == RotT(RotQ(p, q), th)
Mag(p, m) == IF m = ONE THEN p ELSE <<(p[1] * m) \div ONE, (p[2] * m) \div ONE>>
Flip(p, xr) == IF xr THEN <<p[1], -p[2]>> ELSE p
Plus(p, x, y) == <<p[1] + x, p[2] + y>>

\* the map of copy (i, j) of a reference
Place(r, i, j, p) ==
  Plus(Rot(Flip(Plus(Mag(p, r.m), i * r.sx, j * r.sy), r.xr), r.q, r.th), r.x, r.y)

Copies(r) == [i \in 1..(r.co * r.ro) |-> <<(i - 1) \div r.ro, (i - 1) % r.ro>>]

\* the map of a transformed copy: reflect, scale, rotate, translate
\* w: [x, y, q, th, m, xr]
Move(w, p) == Plus(Rot(Mag(Flip(p, w.xr), w.m), w.q, w.th), w.x, w.y)

\* an area a under magnification m/64, without large intermediate numbers
MulA(a, m) ==
  CASE m % 64 = 0 -> a * (m \div 64) * (m \div 64)
    [] m % 64 # 0 /\ m % 32 = 0 -> (a \div 4) * (m \div 32) * (m \div 32)
    [] m % 32 # 0 /\ m % 16 = 0 -> (a \div 16) * (m \div 16) * (m \div 16)
    [] OTHER -> (a \div 64) * (m \div 8) * (m \div 8)
MoveShape(s, Op(_), m) ==
  [s EXCEPT !.g = [i \in 1..Len(@) |-> Op(@[i])], !.a = MulA(@, m)]

(* ---- polygons up to starting point and direction --------------------- *)
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Dedup(g) ==
  LET n == Len(g) IN
  IF n < 2 THEN g
  ELSE LET keep == [i \in 1..n |-> g[i] # g[IF i = 1 THEN n ELSE i - 1]]
           idx == SelectSeq([i \in 1..n |-> i], LAMBDA i : keep[i])
       IN IF idx = <<>> THEN <<g[1]>> ELSE [i \in 1..Len(idx) |-> g[idx[i]]]
\* Vertices in the middle of an edge do not matter.  (The cross product is
\* evaluated modulo two primes; both sides of a comparison are treated alike.)
CrossMod(a, b, c, P) ==
  LET ux == (b[1] - a[1]) % P  uy == (b[2] - a[2]) % P
      vx == (c[1] - b[1]) % P  vy == (c[2] - b[2]) % P
  IN (ux * vy) % P = (uy * vx) % P
Between(a, b, c) ==
  /\ (a[1] <= b[1] /\ b[1] <= c[1]) \/ (a[1] >= b[1] /\ b[1] >= c[1])
  /\ (a[2] <= b[2] /\ b[2] <= c[2]) \/ (a[2] >= b[2] /\ b[2] >= c[2])
Middle(a, b, c) == Between(a, b, c) /\ CrossMod(a, b, c, 46337) /\ CrossMod(a, b, c, 46327)
Straighten(g) ==
  LET n == Len(g)
      idx == SelectSeq([i \in 1..n |-> i],
               LAMBDA i : ~Middle(g[IF i = 1 THEN n ELSE i - 1], g[i], g[IF i = n THEN 1 ELSE i + 1]))
  IN IF n < 4 \/ Len(idx) < 3 THEN g ELSE [i \in 1..Len(idx) |-> g[idx[i]]]
Canon(g0) ==
  LET g == Straighten(Dedup(g0))
      n == Len(g)
  IN IF n < 2 THEN g
     ELSE LET s == CHOOSE i \in 1..n : \A j \in 1..n : g[i] = g[j] \/ Less(g[i], g[j])
              At(k) == g[((s - 1 + k + n) % n) + 1]
              fwd == ~Less(At(n - 1), At(1))
          IN [k \in 1..n |-> IF fwd THEN At(k - 1) ELSE At(n - (k - 1))]

(* ---- shapes of paths -------------------------------------------------- *)
\* axis-parallel spine ps, offset to the left by d (in 1/1000), end
\* extensions e1, e2
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Dir(a, b) == <<Sgn(b[1] - a[1]), Sgn(b[2] - a[2])>>
Left(u) == <<-u[2], u[1]>>
SideAt(ps, i, d, e1, e2) ==
  LET n == Len(ps)
      u == IF i > 1 THEN Dir(ps[i - 1], ps[i]) ELSE Dir(ps[1], ps[2])
      v == IF i < n THEN Dir(ps[i], ps[i + 1]) ELSE u
      nu == Left(u)
      nv == Left(v)
      p == ps[i]
  IN IF i = 1 THEN <<p[1] + d * nv[1] - e1 * v[1], p[2] + d * nv[2] - e1 * v[2]>>
     ELSE IF i = n THEN <<p[1] + d * nu[1] + e2 * u[1], p[2] + d * nu[2] + e2 * u[2]>>
     ELSE IF u = v THEN <<p[1] + d * nu[1], p[2] + d * nu[2]>>
     ELSE <<p[1] + d * (nu[1] + nv[1]), p[2] + d * (nu[2] + nv[2])>>
Outline(ps, w, o, e1, e2) ==
  LET n == Len(ps)
      a == [i \in 1..n |-> SideAt(ps, i, o + w \div 2, e1, e2)]
      b == [i \in 1..n |-> SideAt(ps, n + 1 - i, o - w \div 2, e1, e2)]
  IN a \o b

(* twice the area of a polygon with small coordinates (in units)           *)
Shoelace(g) ==
  LET n == Len(g) IN
  Abs(Sum([i \in 1..n |-> LET j == IF i = n THEN 1 ELSE i + 1 IN
                          g[i][1] * g[j][2] - g[j][1] * g[i][2]]))
Units(g) == [i \in 1..Len(g) |-> <<g[i][1] \div SC, g[i][2] \div SC>>]
Fine(g) == [i \in 1..Len(g) |-> <<g[i][1] * SC, g[i][2] * SC>>]
MkShape(g, l, d) == [g |-> g, l |-> l, d |-> d, a |-> 64 * Shoelace(Units(g))]

(* ---- what a cell shows ------------------------------------------------ *)
INF == 99

\* items: [k |-> key, g |-> points, l, d, a]; key "l/d", or "@name" for the
\* bounding box standing for what lies below the depth limit
KeyLD(s) == ToString(s.l) \o "/" \o ToString(s.d)
Item(s) == [k |-> KeyLD(s), g |-> s.g, l |-> s.l, d |-> s.d, a |-> s.a]

OwnShapes(st, c) ==
  Flat([i \in 1..Len(st.cells[c].P) |-> st.el[st.cells[c].P[i]].s])
  \o Flat([i \in 1..Len(st.cells[c].H) |-> st.el[st.cells[c].H[i]].s])

Points(items) == Flat([i \in 1..Len(items) |-> items[i].g])
RECURSIVE Box(_)
Box(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE LET b == Box(Tail(ps)) p == Head(ps) IN
       IF b = <<>> THEN <<p[1], p[2], p[1], p[2]>>
       ELSE <<Min2(b[1], p[1]), Min2(b[2], p[2]), Max2(b[3], p[1]), Max2(b[4], p[2])>>
BoxOf(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE LET n == Len(ps) IN
       <<FoldSeq(LAMBDA p, acc : Min2(p[1], acc), ps[1][1], ps),
         FoldSeq(LAMBDA p, acc : Min2(p[2], acc), ps[1][2], ps),
         FoldSeq(LAMBDA p, acc : Max2(p[1], acc), ps[1][1], ps),
         FoldSeq(LAMBDA p, acc : Max2(p[2], acc), ps[1][2], ps)>>
BoxPoints(b) == << <<b[1], b[2]>>, <<b[1], b[4]>>, <<b[3], b[4]>>, <<b[3], b[2]>> >>

RECURSIVE Show(_, _, _), ShowRef(_, _, _)
Show(st, c, depth) ==
  IF depth < 0
  THEN LET b == BoxOf(Points(Show(st, c, INF))) IN
       IF b = <<>> THEN <<>>
       ELSE <<[k |-> "@" \o st.cells[c].name, g |-> BoxPoints(b), l |-> -1, d |-> -1, a |-> 0]>>
  ELSE Map(Item, OwnShapes(st, c))
       \o Flat([i \in 1..Len(st.cells[c].R) |->
            ShowRef(st, st.el[st.cells[c].R[i]], IF depth = INF THEN INF ELSE depth - 1)])
ShowRef(st, r, depth) ==
  IF r.o = 0 THEN <<>>
  ELSE LET below == Show(st, r.o, depth)
           cs == Copies(r)
       IN Flat([k \in 1..Len(cs) |->
            [i \in 1..Len(below) |->
               MoveShape(below[i], LAMBDA p : Place(r, cs[k][1], cs[k][2], p), r.m)]])

\* polygon sets and paths as whole elements; kind is "P" or "H"
RECURSIVE Sets(_, _, _, _), SetsRef(_, _, _, _)
MoveSet(e, Op(_), m) == [e EXCEPT !.s = [i \in 1..Len(@) |-> MoveShape(@[i], Op, m)]]
Sets(st, c, kind, depth) ==
  LET own == IF kind = "P" THEN st.cells[c].P ELSE st.cells[c].H IN
  [i \in 1..Len(own) |-> st.el[own[i]]]
  \o (IF depth <= 0 THEN <<>>
      ELSE Flat([i \in 1..Len(st.cells[c].R) |->
             SetsRef(st, st.el[st.cells[c].R[i]], kind, IF depth = INF THEN INF ELSE depth - 1)]))
SetsRef(st, r, kind, depth) ==
  IF r.o = 0 THEN <<>>
  ELSE LET below == Sets(st, r.o, kind, depth)
           cs == Copies(r)
       IN Flat([k \in 1..Len(cs) |->
            [i \in 1..Len(below) |->
               MoveSet(below[i], LAMBDA p : Place(r, cs[k][1], cs[k][2], p), r.m)]])

\* labels; tr: whether the label's own transformation is composed
RECURSIVE Labels(_, _, _, _), LabelsRef(_, _, _, _)
MoveLabel(lb, p, q, th, m, xr, tr) ==
  LET a == [lb EXCEPT !.x = p[1], !.y = p[2]] IN
  IF ~tr THEN a
  ELSE [a EXCEPT !.q = (IF xr THEN q - @ ELSE q + @) % 4,
                 !.th = IF xr THEN th - @ ELSE th + @,
                 !.m = (@ * m) \div ONE,
                 !.xr = @ # xr]
Labels(st, c, depth, tr) ==
  LET own == st.cells[c].L IN
  [i \in 1..Len(own) |-> st.el[own[i]]]
  \o (IF depth <= 0 THEN <<>>
      ELSE Flat([i \in 1..Len(st.cells[c].R) |->
             LabelsRef(st, st.el[st.cells[c].R[i]], IF depth = INF THEN INF ELSE depth - 1, tr)]))
LabelsRef(st, r, depth, tr) ==
  IF r.o = 0 THEN <<>>
  ELSE LET below == Labels(st, r.o, depth, tr)
           cs == Copies(r)
       IN Flat([k \in 1..Len(cs) |->
            [i \in 1..Len(below) |->
               MoveLabel(below[i], Place(r, cs[k][1], cs[k][2], <<below[i].x, below[i].y>>),
                         r.q, r.th, r.m, r.xr, tr)]])

\* area, per key and in total
RECURSIVE Area(_, _), AreaRef(_, _)
Area(st, c) ==
  Sum(Map(LAMBDA s : s.a, OwnShapes(st, c)))
  + Sum([i \in 1..Len(st.cells[c].R) |-> AreaRef(st, st.el[st.cells[c].R[i]])])
AreaRef(st, r) ==
  IF r.o = 0 THEN 0 ELSE MulA(Area(st, r.o), r.m) * (r.co * r.ro)

RECURSIVE Keys(_, _)
Direct(st, c) == {st.el[st.cells[c].R[i]].o : i \in 1..Len(st.cells[c].R)} \ {0}
Keys(st, c) ==
  {<<s.l, s.d>> : s \in SetOf(OwnShapes(st, c))} \cup UNION {Keys(st, x) : x \in Direct(st, c)}

RECURSIVE AreaKey(_, _, _), AreaKeyRef(_, _, _)
AreaKey(st, c, k) ==
  Sum(Map(LAMBDA s : IF <<s.l, s.d>> = k THEN s.a ELSE 0, OwnShapes(st, c)))
  + Sum([i \in 1..Len(st.cells[c].R) |-> AreaKeyRef(st, st.el[st.cells[c].R[i]], k)])
AreaKeyRef(st, r, k) ==
  IF r.o = 0 THEN 0 ELSE MulA(AreaKey(st, r.o, k), r.m) * (r.co * r.ro)

RECURSIVE Deps(_, _), TextKeys(_, _)
Deps(st, c) == Direct(st, c) \cup UNION {Deps(st, x) : x \in Direct(st, c)}
TextKeys(st, c) ==
  {<<st.el[i].ly, st.el[i].tt>> : i \in SetOf(st.cells[c].L)}
  \cup UNION {TextKeys(st, x) : x \in Direct(st, c)}

BBox(st, c) == BoxOf(Points(Show(st, c, INF)))
BBoxRef(st, r) == BoxOf(Points(ShowRef(st, r, INF)))

(* ---- operations -------------------------------------------------------- *)
InitHier == [el |-> <<>>, cells |-> <<>>]

NewEl(st, e) == [st EXCEPT !.el = Append(@, e)]
Into(st, c, kind, id) ==
  CASE kind = "poly"  -> [st EXCEPT !.cells[c].P = Append(@, id)]
    [] kind = "path"  -> [st EXCEPT !.cells[c].H = Append(@, id)]
    [] kind = "label" -> [st EXCEPT !.cells[c].L = Append(@, id)]
    [] kind = "ref"   -> [st EXCEPT !.cells[c].R = Append(@, id)]

AddNew(st, c, e) == Into(NewEl(st, e), c, e.k, Len(st.el) + 1)

MkPoly(e) == [k |-> "poly", pr |-> e.pr,
              s |-> [i \in 1..Len(e.ps) |-> MkShape(Fine(e.ps[i]), e.ls[i], e.ds[i])]]
\* positive offsets are to the left of flexible and to the right of robust paths
MkPath(e) == [k |-> "path", pr |-> e.pr,
              s |-> [i \in 1..Len(e.ws) |->
                 MkShape(Outline(Fine(e.sp), e.ws[i] * SC, e.os[i] * (IF e.typ = "flex" THEN SC ELSE -SC), e.ex[i][1] * SC, e.ex[i][2] * SC),
                         e.ls[i], e.ds[i])]]
MkLabel(e) == [k |-> "label", pr |-> e.pr, t |-> e.t, x |-> e.x * SC, y |-> e.y * SC, an |-> e.an,
               ly |-> e.ly, tt |-> e.tt, q |-> e.q % 4, th |-> e.th, m |-> e.m, xr |-> e.xr]
MkRef(e) == [k |-> "ref", pr |-> e.pr, o |-> e.o, n |-> e.n, x |-> e.x * SC, y |-> e.y * SC, q |-> e.q % 4, th |-> e.th,
             m |-> e.m, xr |-> e.xr, co |-> e.co, ro |-> e.ro, sx |-> e.sx * SC, sy |-> e.sy * SC]

\* replace the lists of a cell by fresh elements
Renew(st, c, ps, hs, ls, rs) ==
  LET n == Len(st.el)
      a == Len(ps) b == Len(hs) d == Len(ls) f == Len(rs)
  IN [el |-> st.el \o ps \o hs \o ls \o rs,
      cells |-> [st.cells EXCEPT ![c] =
        [name |-> @.name,
         P |-> [i \in 1..a |-> n + i], H |-> [i \in 1..b |-> n + a + i],
         L |-> [i \in 1..d |-> n + a + b + i], R |-> [i \in 1..f |-> n + a + b + d + i]]]]

Retag(e, sl, sd) ==
  [e EXCEPT !.s = [i \in 1..Len(@) |->
     [@[i] EXCEPT !.l = IF sl >= 0 THEN sl ELSE @, !.d = IF sd >= 0 THEN sd ELSE @]]]
RetagLabel(e, sl, st) ==
  [e EXCEPT !.ly = IF sl >= 0 THEN sl ELSE @, !.tt = IF st >= 0 THEN st ELSE @]

Flatten(st, e) ==
  Renew(st, e.c,
        Map(LAMBDA x : Retag(x, e.sl, e.sd), Sets(st, e.c, "P", INF)),
        Map(LAMBDA x : Retag(x, e.sl, e.sd), Sets(st, e.c, "H", INF)),
        Map(LAMBDA x : RetagLabel(x, e.sl, e.st), Labels(st, e.c, INF, FALSE)),
        <<>>)

MoveRef(r, w) ==
  LET p == Move(w, <<r.x, r.y>>) IN
  [r EXCEPT !.x = p[1], !.y = p[2],
            !.q = (IF w.xr THEN w.q - @ ELSE w.q + @) % 4,
            !.th = IF w.xr THEN w.th - @ ELSE w.th + @,
            !.m = (@ * w.m) \div ONE, !.xr = @ # w.xr,
            !.sx = (@ * w.m) \div ONE, !.sy = (@ * w.m) \div ONE]

Els(st, ids) == [i \in 1..Len(ids) |-> st.el[ids[i]]]

\* w = [on |-> FALSE] or the transformation
CopyCell(st, e) ==
  LET c == st.cells[e.c]
      s1 == [st EXCEPT !.cells = Append(@, [c EXCEPT !.name = e.name])]
      id == Len(s1.cells)
      w == [e.w EXCEPT !.x = @ * SC, !.y = @ * SC]
      Op(p) == Move(w, p)
  IN IF ~e.deep /\ ~e.w.on THEN s1
     ELSE IF ~e.w.on
     THEN Renew(s1, id, Els(st, c.P), Els(st, c.H), Els(st, c.L), Els(st, c.R))
     ELSE Renew(s1, id,
            Map(LAMBDA x : MoveSet(x, Op, w.m), Els(st, c.P)),
            Map(LAMBDA x : MoveSet(x, Op, w.m), Els(st, c.H)),
            Map(LAMBDA x : MoveLabel(x, Op(<<x.x, x.y>>), w.q, w.th, w.m, w.xr, TRUE), Els(st, c.L)),
            Map(LAMBDA x : MoveRef(x, w), Els(st, c.R)))

(* tests used in removals *)
Hit(test, s) ==
  CASE test.by = "layer"    -> s.l = test.v
    [] test.by = "datatype" -> s.d = test.v
    [] test.by = "pair"     -> s.l = test.v /\ s.d = test.v2
    [] test.by = "left"     -> \E i \in 1..Len(s.g) : s.g[i][1] < test.v * SC
    [] test.by = "all"      -> TRUE
    [] test.by = "none"     -> FALSE
HitLabel(test, e) ==
  CASE test.by = "layer" -> e.ly = test.v
    [] test.by = "datatype" -> e.tt = test.v
    [] test.by = "pair" -> e.ly = test.v /\ e.tt = test.v2
    [] test.by = "left" -> e.x < test.v * SC
    [] test.by = "all" -> TRUE
    [] test.by = "none" -> FALSE
\* a path is tested as a whole
HitPath(test, e) == \E i \in 1..Len(e.s) : Hit(test, e.s[i])

RECURSIVE FilterPolys(_, _, _, _)
FilterPolys(st, ids, test, acc) ==
  IF ids = <<>> THEN [st |-> st, ids |-> acc]
  ELSE LET e == st.el[Head(ids)]
           kept == SelectSeq(e.s, LAMBDA s : ~Hit(test, s))
       IN IF Len(kept) = Len(e.s) /\ kept # <<>> THEN FilterPolys(st, Tail(ids), test, Append(acc, Head(ids)))
          ELSE IF kept = <<>> THEN FilterPolys(st, Tail(ids), test, acc)
          ELSE FilterPolys(NewEl(st, [e EXCEPT !.s = kept]), Tail(ids), test, Append(acc, Len(st.el) + 1))

RmPoly(st, e) ==
  LET f == FilterPolys(st, st.cells[e.c].P, e.test, <<>>) IN
  [f.st EXCEPT !.cells[e.c].P = f.ids]
\* the test can also depend on the call: it is true at the calls test.s.  ids is the
\* order in which the list was tested (an element may be in it more than once)
NthHits(list, ids, s) ==
  IF ids = list THEN SetOf(s)
  ELSE IF ids = Reverse(list) THEN {Len(list) + 1 - k : k \in SetOf(s)}
  ELSE {i \in 1..Len(list) : \E k \in SetOf(s) : k <= Len(ids) /\ ids[k] = list[i]}
Without(list, hits) ==
  LET idx == SelectSeq([i \in 1..Len(list) |-> i], LAMBDA i : i \notin hits) IN
  [i \in 1..Len(idx) |-> list[idx[i]]]
RmPath(st, e) ==
  IF e.test.by = "nth"
  THEN [st EXCEPT !.cells[e.c].H = Without(@, NthHits(@, e.ret.ids, e.test.s))]
  ELSE [st EXCEPT !.cells[e.c].H = SelectSeq(@, LAMBDA i : ~HitPath(e.test, st.el[i]))]
RmLabel(st, e) ==
  IF e.test.by = "nth"
  THEN [st EXCEPT !.cells[e.c].L = Without(@, NthHits(@, e.ret.ids, e.test.s))]
  ELSE [st EXCEPT !.cells[e.c].L = SelectSeq(@, LAMBDA i : ~HitLabel(e.test, st.el[i]))]

(* in-place edits of one element; f names the edit *)
EditPoints(e, Op(_), m) == MoveSet(e, Op, m)
Edit(st, e) ==
  LET x == st.el[e.e]
      f == e.f
      T(p) == Plus(p, e.x * SC, e.y * SC)
      R(p) == LET z == RotQ(Plus(p, -e.x * SC, -e.y * SC), e.v) IN Plus(z, e.x * SC, e.y * SC)
      S(p) == <<p[1] * e.v + e.x * SC * (1 - e.v), p[2] * e.v + e.y * SC * (1 - e.v)>>
      MX(p) == <<p[1], 2 * e.y * SC - p[2]>>
      y ==
        CASE f = "translate" /\ x.k \in {"poly", "path"} -> MoveSet(x, T, ONE)
          [] f = "translate" -> [x EXCEPT !.x = @ + e.x * SC, !.y = @ + e.y * SC]
          [] f = "rotate" -> MoveSet(x, R, ONE)
          [] f = "scale" -> MoveSet(x, S, ONE * e.v)
          [] f = "mirror" -> MoveSet(x, MX, ONE)
          [] f = "layer" /\ x.k \in {"poly", "path"} -> [x EXCEPT !.s[e.i].l = e.v]
          [] f = "layer" -> [x EXCEPT !.ly = e.v]
          [] f = "datatype" /\ x.k \in {"poly", "path"} -> [x EXCEPT !.s[e.i].d = e.v]
          [] f = "datatype" -> [x EXCEPT !.tt = e.v]
          [] f = "props" -> [x EXCEPT !.pr = e.p]
          [] f = "nudge" -> [x EXCEPT !.s[e.i] = MoveShape(@, T, ONE)]
          [] f = "text" -> [x EXCEPT !.t = e.p]
          [] f = "refl" -> [x EXCEPT !.xr = ~@]
          [] f = "quarter" -> [x EXCEPT !.q = (@ + e.v) % 4]
          [] f = "mag2" -> [x EXCEPT !.m = @ * 2]
          [] f = "grid" -> [x EXCEPT !.co = e.v, !.ro = e.i]
  IN [st EXCEPT !.el[e.e] = y]

(* references by name through a library holding all the cells *)
TargetName(st, r) == IF r.o > 0 THEN st.cells[r.o].name ELSE r.n
Rebind(st, a, b) ==
  LET nm == st.cells[a].name
      held == UNION {SetOf(st.cells[c].R) : c \in 1..Len(st.cells)}
  IN
  [st EXCEPT !.el = [i \in 1..Len(@) |->
     IF i \in held /\ @[i].k = "ref" /\ TargetName(st, @[i]) = nm THEN [@[i] EXCEPT !.o = b, !.n = ""] ELSE @[i]]]
RmRef(st, a) ==
  LET nm == st.cells[a].name IN
  [st EXCEPT !.cells = [c \in 1..Len(@) |->
     IF c = a THEN @[c]
     ELSE [@[c] EXCEPT !.R = SelectSeq(@, LAMBDA i : TargetName(st, st.el[i]) # nm)]]]

ClearCell(st, c) == [st EXCEPT !.cells[c].P = <<>>, !.cells[c].H = <<>>, !.cells[c].L = <<>>, !.cells[c].R = <<>>]

Mutators == {"cell", "poly", "path", "label", "ref", "share", "edit", "copy", "flatten",
             "rmpoly", "rmpath", "rmlabel", "rebind", "rmref", "badadd"}

Apply(st, e) ==
  CASE e.op = "cell"    -> [st EXCEPT !.cells = Append(@, [name |-> e.name, P |-> <<>>, H |-> <<>>, L |-> <<>>, R |-> <<>>])]
    [] e.op = "poly"    -> AddNew(st, e.c, MkPoly(e))
    [] e.op = "path"    -> AddNew(st, e.c, MkPath(e))
    [] e.op = "label"   -> AddNew(st, e.c, MkLabel(e))
    [] e.op = "ref"     -> AddNew(st, e.c, MkRef(e))
    [] e.op = "share"   -> Into(st, e.c, st.el[e.e].k, e.e)
    [] e.op = "edit"    -> Edit(st, e)
    [] e.op = "copy"    -> CopyCell(st, e)
    [] e.op = "flatten" -> Flatten(st, e)
    [] e.op = "rmpoly"  -> RmPoly(st, e)
    [] e.op = "rmpath"  -> RmPath(st, e)
    [] e.op = "rmlabel" -> RmLabel(st, e)
    [] e.op = "rebind"  -> Rebind(st, e.a, e.b)
    [] e.op = "rmref"   -> RmRef(st, e.a)
    [] OTHER            -> st

(* ---- results of queries ------------------------------------------------ *)
\* e.c > 0: asked from cell c; e.c = 0: from reference element e.e
ShowAt(st, e, depth) == IF e.c > 0 THEN Show(st, e.c, depth) ELSE ShowRef(st, st.el[e.e], depth)
SetsAt(st, e, kind) == IF e.c > 0 THEN Sets(st, e.c, kind, e.depth) ELSE SetsRef(st, st.el[e.e], kind, e.depth)
LabelsAt(st, e) == IF e.c > 0 THEN Labels(st, e.c, e.depth, e.tr) ELSE LabelsRef(st, st.el[e.e], e.depth, e.tr)

CanonShape(s) == [g |-> Canon(s.g), l |-> s.l, d |-> s.d]
\* a path's shapes have no order among equal (layer, datatype)
SeenSet(e) == [pr |-> e.pr, s |-> Map(CanonShape, e.s)]
SeenPath(e) == [pr |-> e.pr, s |-> BagOf(Map(CanonShape, e.s))]
SeenLabel(e) == [pr |-> e.pr, t |-> e.t, x |-> e.x, y |-> e.y, an |-> e.an, ly |-> e.ly, tt |-> e.tt,
                 q |-> e.q, th |-> e.th, m |-> e.m, xr |-> e.xr]
SeenRef(e) == [pr |-> e.pr, o |-> e.o, n |-> IF e.o > 0 THEN "" ELSE e.n, x |-> e.x, y |-> e.y, q |-> e.q, th |-> e.th, m |-> e.m,
               xr |-> e.xr, co |-> e.co, ro |-> e.ro, sx |-> e.sx, sy |-> e.sy]
=============================================================================
