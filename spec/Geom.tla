--------------------------------- MODULE Geom ---------------------------------
(***************************************************************************)
(* Regions of the plane covered by polygons, and what the geometric        *)
(* operations of gdspy (boolean, slice, inside, fracture, offset) must do  *)
(* to them.                                                                *)
(*                                                                         *)
(* Operands have small integer coordinates (grid units).  Two domains:     *)
(*  - "rect": all edges along the axes.  The region is a set of grid       *)
(*    cells; results must have grid vertices and are compared in every     *)
(*    cell, so exactly.                                                    *)
(*  - general: results have coordinates in 1/K of a grid unit (the         *)
(*    precision used); regions are compared at the points of a lattice     *)
(*    that are farther than Margin from every edge (rounding of            *)
(*    intersections).                                                      *)
(***************************************************************************)
EXTENDS Hier

Strict(s) == s \o <<>>
Nx(g, i) == g[IF i = Len(g) THEN 1 ELSE i + 1]
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (p[1] - a[1]) * (b[2] - a[2])

\* winding number of polygon g around p (p on no edge)
Wind(g, p) ==
    Cardinality({i \in 1..Len(g) : LET a == g[i] b == Nx(g, i) IN a[2] <= p[2] /\ b[2] > p[2] /\ Cross(a, b, p) > 0})
  - Cardinality({i \in 1..Len(g) : LET a == g[i] b == Nx(g, i) IN a[2] > p[2] /\ b[2] <= p[2] /\ Cross(a, b, p) < 0})
RECURSIVE Area2(_, _, _)
Area2(g, i, acc) == IF i > Len(g) THEN acc ELSE Area2(g, i + 1, acc + g[i][1] * Nx(g, i)[2] - Nx(g, i)[1] * g[i][2])
Turned(g) == IF Area2(g, 1, 0) < 0 THEN Reverse(g) ELSE g

(* ---- operands -------------------------------------------------------- *)
\* items: [k |-> "polys", ps] | [k |-> "ref", ps, ...as Hier's references]
\*        | [k |-> "path", sp, ws, os, sd] (outlines of a mitred path)
ItemPolys(it) ==
  CASE it.k = "polys" -> it.ps
    [] it.k = "ref" -> Flat([c \in 1..(it.co * it.ro) |->
         [j \in 1..Len(it.ps) |-> [v \in 1..Len(it.ps[j]) |-> Place(it, Copies(it)[c][1], Copies(it)[c][2], it.ps[j][v])]]])
    [] it.k = "path" -> [j \in 1..Len(it.ws) |-> Outline(it.sp, it.ws[j], it.sd * it.os[j], 0, 0)]
Operand(items) == Flat(Map(ItemPolys, items))
ScaleG(g, k) == Strict([i \in 1..Len(g) |-> <<k * g[i][1], k * g[i][2]>>])
ScaleP(gs, k) == Strict([j \in 1..Len(gs) |-> ScaleG(gs[j], k)])

\* the region of a collection: points with a total winding number other than
\* zero, every polygon taken counter-clockwise
Total(gs, p) == Sum([j \in 1..Len(gs) |-> Wind(gs[j], p)])
In(gs, p) == Total(gs, p) # 0
Times(gs, p) == Cardinality({j \in 1..Len(gs) : Wind(gs[j], p) # 0})
Oriented(gs) == Strict([j \in 1..Len(gs) |-> Turned(gs[j])])
BoolOp(o, a, b) == CASE o = "or" -> a \/ b [] o = "and" -> a /\ b [] o = "not" -> a /\ ~b [] o = "xor" -> a # b

(* ---- places to look at ------------------------------------------------ *)
\* bounds <<x0, x1, y0, y1>> of polygons in any unit
Bounds(gs) ==
  LET xs == UNION {{p[1] : p \in SetOf(g)} : g \in SetOf(gs)}
      ys == UNION {{p[2] : p \in SetOf(g)} : g \in SetOf(gs)}
      mn(S) == CHOOSE v \in S : \A w \in S : v <= w
      mx(S) == CHOOSE v \in S : \A w \in S : v >= w
  IN IF xs = {} THEN <<0, 0, 0, 0>> ELSE <<mn(xs), mx(xs), mn(ys), mx(ys)>>
Within(gs, bb) == \A g \in SetOf(gs) : \A p \in SetOf(g) : p[1] >= bb[1] /\ p[1] <= bb[2] /\ p[2] >= bb[3] /\ p[2] <= bb[4]
\* centres of the cells, in eighths of a grid unit
Centres(bb) == {<<8 * x + 4, 8 * y + 4>> : x \in bb[1]..(bb[2] - 1), y \in bb[3]..(bb[4] - 1)}
Lattice(bb, k) == {<<k * x + (k * 337) \div 1000, k * y + (k * 411) \div 1000>> : x \in bb[1]..(bb[2] - 1), y \in bb[3]..(bb[4] - 1)}
Margin == 12
FarFrom(a, b, p) ==
  \/ p[1] < Min2(a[1], b[1]) - Margin \/ p[1] > Max2(a[1], b[1]) + Margin
  \/ p[2] < Min2(a[2], b[2]) - Margin \/ p[2] > Max2(a[2], b[2]) + Margin
  \/ Abs(Cross(a, b, p)) > Margin * (Abs(b[1] - a[1]) + Abs(b[2] - a[2]))
Clear(gs, p) == \A g \in SetOf(gs) : \A i \in 1..Len(g) : FarFrom(g[i], Nx(g, i), p)

\* Where regions are compared, and in which unit: rect: eighths of a grid unit;
\* general: the precision, K of which make a grid unit
Unit(e) == IF e.rect THEN 8 ELSE e.K
OnGrid(e, gs) == \A g \in SetOf(gs) : \A p \in SetOf(g) : p[1] % e.K = 0 /\ p[2] % e.K = 0
\* results in the unit used for comparison
Res(e, gs) == IF e.rect THEN Strict([j \in 1..Len(gs) |-> Strict([i \in 1..Len(gs[j]) |->
                                 <<(gs[j][i][1] * 8) \div e.K, (gs[j][i][2] * 8) \div e.K>>])]) ELSE gs
Places(e, bb, gs) == IF e.rect THEN Centres(bb) ELSE {p \in Lattice(bb, e.K) : Clear(gs, p)}
\* (fracturing may cut between grid lines; never within 199 vertices here)
GridOk(e, gs) == ~e.rect \/ (e.mp > 4 /\ e.mp < 199) \/ OnGrid(e, gs)
Times4(bb, k) == <<k * bb[1], k * bb[2], k * bb[3], k * bb[4]>>
Known(gs) == \A g \in SetOf(gs) : Len(g) >= 3 /\ \A p \in SetOf(g) : p[1] # 1999999999 /\ p[2] # 1999999999
Limit(mp, gs) == mp <= 4 \/ \A g \in SetOf(gs) : Len(g) <= mp

(* ---- the operations ---------------------------------------------------- *)
BoolClause(e) ==
  LET a0 == Operand(e.a) b0 == Operand(e.b)
      bb == Bounds(a0 \o b0)
      k == Unit(e)
      A == ScaleP(Oriented(a0), k) B == ScaleP(Oriented(b0), k)
      r == Res(e, e.ret.ps)
  IN IF ~Known(e.ret.ps) THEN "result off the precision grid or degenerate"
     ELSE IF ~GridOk(e, e.ret.ps) THEN "vertices off the grid of the operands"
     ELSE IF ~Within(r, Times4(bb, k)) THEN "result reaches beyond the operands"
     ELSE IF ~Limit(e.mp, e.ret.ps) THEN "more points than allowed"
     ELSE IF \E i \in 1..Len(e.ret.ps) : e.ret.ls[i] # e.ly \/ e.ret.ds[i] # e.dt THEN "layer or datatype of the result"
     ELSE IF Len(e.ret.ls) # Len(e.ret.ps) \/ Len(e.ret.ds) # Len(e.ret.ps) THEN "layers of the result"
     ELSE LET pts == Places(e, bb, A \o B)
              want(p) == BoolOp(e.o, In(A, p), In(B, p))
          IN IF \E p \in pts : want(p) /\ Times(r, p) = 0 THEN "region " \o e.o \o ": point missing"
             ELSE IF \E p \in pts : ~want(p) /\ Times(r, p) > 0 THEN "region " \o e.o \o ": point too many"
             ELSE IF \E p \in pts : Times(r, p) > 1 THEN "result overlaps itself"
             ELSE ""

RECURSIVE Insert2(_, _)
Insert2(s, x) == IF s = <<>> THEN <<x>> ELSE IF x <= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert2(Tail(s), x)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN s ELSE Insert2(Sorted(Tail(s)), Head(s))
Cyc(s, i) == s[((i - 1) % Len(s)) + 1]

\* e.at: positions in eighths of a grid unit (rect) or units of precision (general)
SliceClause(e) ==
  LET a0 == Operand(e.a)
      bb == Bounds(a0)
      k == Unit(e)
      A == ScaleP(a0, k)
      cuts == Sorted(e.at)
      n == Len(cuts) + 1
      ax == e.axis + 1
      far(p) == e.rect \/ \A i \in 1..Len(cuts) : Abs(p[ax] - cuts[i]) > Margin
      strip(i, p) == (i = 1 \/ p[ax] > cuts[i - 1]) /\ (i = n \/ p[ax] < cuts[i])
  IN IF Len(e.ret) # n THEN "number of strips"
     ELSE IF \E i \in 1..n : ~Known(e.ret[i].ps) THEN "result off the precision grid or degenerate"
     ELSE IF \E i \in 1..n : e.ret[i].none # (e.ret[i].ps = <<>>) THEN "empty strips are None"
     ELSE IF \E i \in 1..n : ~Within(Res(e, e.ret[i].ps), Times4(bb, k)) THEN "result reaches beyond the operand"
     ELSE IF \E i \in 1..n : \E j \in 1..Len(e.ret[i].ps) : e.ret[i].ls[j] # Cyc(e.ly, i) \/ e.ret[i].ds[j] # Cyc(e.dt, i)
          THEN "layer or datatype of a strip"
     ELSE LET pts == {p \in Places(e, bb, A) : far(p)}
              w == {i \in 1..n : LET r == Res(e, e.ret[i].ps) IN
                      \E p \in pts : Times(r, p) # (IF strip(i, p) THEN Times(A, p) ELSE 0)}
          IN IF w = {} THEN "" ELSE "region of a strip"

\* fracture keeps what covers every place, layer by layer
OfTag(gs, ls, ds, l, d) == LET idx == SelectSeq([i \in 1..Len(gs) |-> i], LAMBDA i : ls[i] = l /\ ds[i] = d)
                           IN Strict([i \in 1..Len(idx) |-> gs[idx[i]]])
FractureClause(e) ==
  LET bb == Bounds(e.ps)
      k == Unit(e)
      A == ScaleP(e.ps, k)
      r == Res(e, e.ret.ps)
      n == Len(e.ps) m == Len(e.ret.ps)
      keep == {i \in 1..n : Len(e.ps[i]) <= e.mp \/ e.mp <= 4}
      same(i, j) == e.ret.ls[j] = e.ls[i] /\ e.ret.ds[j] = e.ds[i] /\ e.ret.ps[j] = ScaleG(e.ps[i], e.K)
  IN IF ~Known(e.ret.ps) THEN "result off the precision grid or degenerate"
     ELSE IF Len(e.ret.ls) # m \/ Len(e.ret.ds) # m THEN "layers of the result"
     ELSE IF e.ret.pr # e.pr THEN "properties"
     ELSE IF ~Limit(e.mp, e.ret.ps) THEN "more points than allowed"
     ELSE IF \E i \in keep : Cardinality({j \in 1..m : same(i, j)}) < Cardinality({j \in keep : e.ps[j] = e.ps[i] /\ e.ls[j] = e.ls[i] /\ e.ds[j] = e.ds[i]})
          THEN "polygon within the limit was changed"
     ELSE IF ~Within(r, Times4(bb, k)) THEN "result reaches beyond the polygons"
     ELSE LET pts == Places(e, bb, A)
              tags == {<<e.ls[i], e.ds[i]>> : i \in 1..n} \cup {<<e.ret.ls[i], e.ret.ds[i]>> : i \in 1..m}
              bad == {t \in tags : LET x == OfTag(A, e.ls, e.ds, t[1], t[2]) y == OfTag(r, e.ret.ls, e.ret.ds, t[1], t[2]) IN
                                     \E p \in pts : Times(x, p) # Times(y, p)}
          IN IF bad = {} THEN "" ELSE "region on a layer"

\* closed even-odd membership, exactly, in half grid units
OnEdge(a, b, p) == Cross(a, b, p) = 0 /\ Min2(a[1], b[1]) <= p[1] /\ p[1] <= Max2(a[1], b[1])
                                       /\ Min2(a[2], b[2]) <= p[2] /\ p[2] <= Max2(a[2], b[2])
Holds(g, p) ==
  \/ \E i \in 1..Len(g) : OnEdge(g[i], Nx(g, i), p)
  \/ Wind(g, p) % 2 = 1
InsideClause(e) ==
  LET A == ScaleP(Operand(e.a), 2)
      in(p) == \E j \in 1..Len(A) : Holds(A[j], p)
      want == CASE e.mode = "points" -> [i \in 1..Len(e.pts[1]) |-> in(e.pts[1][i])]
                [] e.mode = "any" -> [i \in 1..Len(e.pts) |-> \E j \in 1..Len(e.pts[i]) : in(e.pts[i][j])]
                [] e.mode = "all" -> [i \in 1..Len(e.pts) |-> \A j \in 1..Len(e.pts[i]) : in(e.pts[i][j])]
  IN IF e.ret = want THEN "" ELSE "inside " \o e.mode

\* growing and shrinking sets of cells by whole grid units
Near4(c, d) == {<<x, y>> : x \in (c[1] - d)..(c[1] + d), y \in (c[2] - d)..(c[2] + d)}
Cells(A, bb) == {<<x, y>> \in (bb[1]..(bb[2] - 1)) \X (bb[3]..(bb[4] - 1)) : \E j \in 1..Len(A) : Wind(A[j], <<8 * x + 4, 8 * y + 4>>) # 0}
Grow(C, d) == UNION {Near4(c, d) : c \in C}
Shrink(C, d) == {c \in C : Near4(c, d) \subseteq C}
OffsetClause(e) ==
  LET a0 == Operand(e.a)
      bb0 == Bounds(a0)
      m == Abs(e.d) + 1
      bb == <<bb0[1] - m, bb0[2] + m, bb0[3] - m, bb0[4] + m>>
      A == ScaleP(a0, 8)
      r == Res(e, e.ret.ps)
      alone(g) == Cells(<<g>>, bb0)
      want == IF e.d >= 0 THEN Grow(Cells(A, bb0), e.d)
              ELSE IF e.jf THEN Shrink(Cells(A, bb0), -e.d)
              ELSE UNION {Shrink(alone(A[j]), -e.d) : j \in 1..Len(A)}
  IN IF ~Known(e.ret.ps) THEN "result off the precision grid or degenerate"
     ELSE IF ~GridOk(e, e.ret.ps) THEN "vertices off the grid"
     ELSE IF ~Within(r, Times4(bb, 8)) THEN "result reaches too far"
     ELSE IF ~Limit(e.mp, e.ret.ps) THEN "more points than allowed"
     ELSE IF \E i \in 1..Len(e.ret.ps) : e.ret.ls[i] # e.ly \/ e.ret.ds[i] # e.dt THEN "layer or datatype of the result"
     ELSE IF Cells(r, bb) # want THEN "region " \o (IF e.d >= 0 THEN "grown" ELSE "shrunk")
     ELSE IF \E p \in Centres(bb) : Times(r, p) > 1 THEN "result overlaps itself"
     ELSE ""
=============================================================================
