-------------------------------- MODULE Svg ---------------------------------
(***************************************************************************)
(* What an SVG document shows, and what the document of a cell must show.  *)
(*                                                                         *)
(* A document is [box, size, rect, css, defs, items]:                      *)
(*   items  a tree of [k |-> "g", id, tf, items], [k |-> "use", href, tf], *)
(*          [k |-> "polygon", cls, tf, g], [k |-> "text", cls, t, ta, da,  *)
(*          tf]; defs is such a list that is not shown itself.             *)
(*   tf     a transform list, applied from the right; every function in it *)
(*          is a similarity [x, y, q, th, m, xr] (magnify, reflect, rotate *)
(*          by 90q + th*atan2(4,3), translate), as in Hier.                *)
(* Coordinates are divided by the scaling factor asked for.                *)
(***************************************************************************)
EXTENDS Hier

Upright == [x |-> 0, y |-> 0, q |-> 0, th |-> 0, m |-> ONE, xr |-> FALSE]
Through(s, p) == Plus(Rot(Flip(Mag(p, s.m), s.xr), s.q, s.th), s.x, s.y)
\* first b, then a
After(a, b) ==
  LET p == Through(a, <<b.x, b.y>>) IN
  [x |-> p[1], y |-> p[2],
   q |-> (IF a.xr THEN a.q - b.q ELSE a.q + b.q) % 4,
   th |-> IF a.xr THEN a.th - b.th ELSE a.th + b.th,
   m |-> (a.m * b.m) \div ONE, xr |-> a.xr # b.xr]

MovePoly(tf, x) == [x EXCEPT !.g = [i \in 1..Len(@) |-> FoldRight(LAMBDA s, p : Through(s, p), tf, @[i])]]
MoveText(tf, x) == [x EXCEPT !.s = FoldRight(LAMBDA s, b : After(s, b), tf, @)]

RECURSIVE AllGroups(_)
AllGroups(items) ==
  Flat([i \in 1..Len(items) |->
    IF items[i].k = "g" THEN <<items[i]>> \o AllGroups(items[i].items) ELSE <<>>])

\* everything shown by a list of items: polygons and texts in the coordinates
\* of the list; groups are followed through uses, at most fuel levels deep
RECURSIVE Shown(_, _, _)
Shown(groups, items, fuel) ==
  Flat([i \in 1..Len(items) |->
    LET x == items[i]
        moved(below) == [j \in 1..Len(below) |->
           IF below[j].k = "polygon" THEN MovePoly(x.tf, below[j])
           ELSE IF below[j].k = "text" THEN MoveText(x.tf, below[j])
           ELSE below[j]]
    IN IF x.k = "polygon" THEN moved(<<[k |-> "polygon", cls |-> x.cls, g |-> x.g]>>)
       ELSE IF x.k = "text"
            THEN moved(<<[k |-> "text", cls |-> x.cls, t |-> x.t, ta |-> x.ta, da |-> x.da, s |-> Upright]>>)
       ELSE IF fuel = 0 THEN <<[k |-> "endless"]>>
       ELSE IF x.k = "g" THEN moved(Shown(groups, x.items, fuel - 1))
       ELSE LET hit == SelectSeq(groups, LAMBDA g : g.id = x.href) IN
            IF hit = <<>> THEN <<>> ELSE moved(Shown(groups, <<hit[1]>>, fuel - 1))])

ClassOf(l, d) == "l" \o ToString(l) \o "d" \o ToString(d)
TextClass(l, d) == "l" \o ToString(l) \o "t" \o ToString(d)

\* the y axis of a document points down, for the letters of a text too
Down(p) == <<p[1], -p[2]>>
SeenPolys(st, c) == Map(LAMBDA s : <<ClassOf(s.l, s.d), Canon(Map(Down, s.g))>>, Show(st, c, INF))
TA(an) == IF an \in {"nw", "w", "sw"} THEN "start" ELSE IF an \in {"n", "o", "s"} THEN "middle" ELSE "end"
DA(an) == IF an \in {"nw", "n", "ne"} THEN "text-before-edge"
          ELSE IF an \in {"w", "o", "e"} THEN "central" ELSE "text-after-edge"
SeenTexts(st, c) ==
  Map(LAMBDA b : <<TextClass(b.ly, b.tt), b.t, TA(b.an), DA(b.an),
                   [x |-> b.x, y |-> -b.y, q |-> (-b.q) % 4, th |-> -b.th, m |-> b.m, xr |-> b.xr]>>,
      Labels(st, c, INF, TRUE))

\* boxes are counted in 1/100000 of a unit, as paddings are percentages
Pad(e, w, h) == IF ~e.bg THEN 0 ELSE IF e.pct THEN Max2(w, h) * e.pad ELSE e.pad * SC * 100
ViewBox(st, e) ==
  LET b == BBox(st, e.c)
      w == b[3] - b[1]
      h == b[4] - b[2]
      p == Pad(e, w, h)
  IN <<100 * b[1] - p, -100 * b[4] - p, 100 * w + 2 * p, 100 * h + 2 * p>>

SameItems(a, b) == Len(a) = Len(b) /\ BagOf(a) = BagOf(b)
SvgClause(st, e) ==
  LET d == e.ret.doc
      none == BBox(st, e.c) = <<>>
      groups == AllGroups(d.defs) \o AllGroups(d.items)
      ids == [i \in 1..Len(groups) |-> groups[i].id]
      shown == Shown(groups, d.items, 12)
      polys == Map(LAMBDA x : <<x.cls, Canon(x.g)>>, SelectSeq(shown, LAMBDA x : x.k = "polygon"))
      texts == Map(LAMBDA x : <<x.cls, x.t, x.ta, x.da, x.s>>, SelectSeq(shown, LAMBDA x : x.k = "text"))
      used == {p[1] : p \in SetOf(polys)} \cup {x[1] : x \in SetOf(texts)}
      names == [i \in 1..Len(d.css) |-> d.css[i].cls]
      Body(n) == d.css[CHOOSE i \in 1..Len(names) : names[i] = n].body
  IN IF none THEN (IF e.ret.empty THEN "" ELSE "a document without geometry")
     ELSE IF e.ret.bad # "" THEN "document: " \o e.ret.bad
     ELSE IF Len(ids) # Cardinality(SetOf(ids)) THEN "two groups with the same id"
     ELSE IF Len(d.defs) # Cardinality(Deps(st, e.c)) THEN "number of definitions"
     ELSE IF d.box # ViewBox(st, e) \/ d.size # <<d.box[3], d.box[4]>> THEN "view box"
     ELSE IF d.rect # (IF e.bg THEN <<d.box>> ELSE <<>>) THEN "background"
     ELSE IF \E x \in SetOf(shown) : x.k = "endless" THEN "groups use each other"
     ELSE IF ~SameItems(polys, SeenPolys(st, e.c)) THEN "polygons of the document"
     ELSE IF ~SameItems(texts, SeenTexts(st, e.c)) THEN "texts of the document"
     ELSE IF ~(used \subseteq SetOf(names)) THEN "a class without style"
     ELSE IF Len(names) # Cardinality(SetOf(names)) THEN "a class with two styles"
     ELSE IF \E s \in SetOf(e.sty) : s.cls \in used /\ Body(s.cls) # s.body THEN "style asked for"
     ELSE IF \E n \in used : Body(n) = <<>> THEN "empty style"
     ELSE ""
=============================================================================
