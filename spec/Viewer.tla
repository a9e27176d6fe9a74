------------------------------- MODULE Viewer -------------------------------
(* The layout viewer: which cell is shown, down to which depth, which      *)
(* layers are hidden, how they are stacked, coloured and filled, and what  *)
(* the canvas must then show; what zooming, panning, the readouts and the  *)
(* dialogs do.                                                             *)
(*                                                                         *)
(* State vw of a viewer (the layout st is that of Hier):                   *)
(*   names  the cells offered, in order; cell, depth: what is shown        *)
(*   order  layers <<l, d>> of the list, from the bottom of the stack up   *)
(*   hid    names "l/d" of hidden layers                                   *)
(*   col, pat  sequences of <<"l/d", value>>, asked for or seen            *)
(*   dcol, dpat  defaults asked for ("" and -1: automatic)                 *)
(*   ruler  [on, p], p = <<>> when its origin is not known                 *)
EXTENDS Hier

NameOf(k) == ToString(k[1]) \o "/" \o ToString(k[2])
Boxes(st) == {"@" \o st.cells[i].name : i \in 1..Len(st.cells)}
CellId(st, n) == CHOOSE i \in 1..Len(st.cells) : st.cells[i].name = n
Polys(st, vw) == Show(st, CellId(st, vw.cell), vw.depth)
Texts(st, vw) == Labels(st, CellId(st, vw.cell), vw.depth, FALSE)
LayersOf(st, vw) ==
  {<<s.l, s.d>> : s \in {x \in SetOf(Polys(st, vw)) : x.l >= 0}} \cup {<<b.ly, b.tt>> : b \in SetOf(Texts(st, vw))}
Above(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
NoRuler == [on |-> FALSE, p |-> <<>>]
\* everything is drawn again: the highest layers first
Redraw(st, vw) == [vw EXCEPT !.order = SortSeq(SetToSeq(LayersOf(st, vw)), Above), !.ruler = NoRuler]

Open(st, e) ==
  Redraw(st, [names |-> e.names, cell |-> e.names[1], depth |-> e.depth, order |-> <<>>, hid |-> SetOf(e.hid),
              col |-> Map(LAMBDA x : <<x.k, x.v>>, SelectSeq(e.cols, LAMBDA x : x.k # "default")),
              pat |-> Map(LAMBDA x : <<x.k, x.v>>, SelectSeq(e.pats, LAMBDA x : x.k # "default")),
              dcol |-> LET d == SelectSeq(e.cols, LAMBDA x : x.k = "default") IN IF d = <<>> THEN "" ELSE d[1].v,
              dpat |-> LET d == SelectSeq(e.pats, LAMBDA x : x.k = "default") IN IF d = <<>> THEN -1 ELSE d[1].v,
              bg |-> e.bg, ruler |-> NoRuler])

Known(tab, k) == \E i \in 1..Len(tab) : tab[i][1] = k
Value(tab, k) == LET i == CHOOSE i \in 1..Len(tab) : tab[i][1] = k IN tab[i][2]
Put(tab, k, x) == SelectSeq(tab, LAMBDA y : y[1] # k) \o <<<<k, x>>>>

InRange(r, x) == r[1] < 0 \/ (r[1] <= x /\ x <= r[2])
Passes(f, k) ==
  \E i \in 1..Len(f) : /\ \E j \in 1..Len(f[i][1]) : InRange(f[i][1][j], k[1])
                       /\ \E j \in 1..Len(f[i][2]) : InRange(f[i][2][j], k[2])
Applies(e) == ~e.bad /\ e.how \in {"OK", "<KeyPress-Return>"}

At(vw, name) == CHOOSE i \in 1..Len(vw.order) : NameOf(vw.order[i]) = name
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]

Acted(st, vw, e) ==
  CASE e.op = "open"   -> Open(st, e)
    [] e.op = "cell"   -> Redraw(st, [vw EXCEPT !.cell = e.n])
    [] e.op = "depth"  -> IF e.ok /\ e.v # vw.depth THEN Redraw(st, [vw EXCEPT !.depth = e.v]) ELSE vw
    [] e.op = "toggle" -> [vw EXCEPT !.hid = IF e.k \in @ THEN @ \ {e.k} ELSE @ \cup {e.k}]
    [] e.op = "others" ->
         LET os == SelectSeq(Map(NameOf, vw.order), LAMBDA n : n # e.k) IN
         IF os = <<>> THEN vw
         ELSE [vw EXCEPT !.hid = IF os[1] \in @ THEN @ \ SetOf(os) ELSE @ \cup SetOf(os)]
    [] e.op = "raise"  -> LET i == At(vw, e.k) IN
                          IF i = Len(vw.order) THEN vw ELSE [vw EXCEPT !.order = Swap(@, i, i + 1)]
    [] e.op = "lower"  -> LET i == At(vw, e.k) IN
                          IF i = 1 THEN vw ELSE [vw EXCEPT !.order = Swap(@, i, i - 1)]
    [] e.op = "color"  -> IF e.v = "" THEN vw ELSE [vw EXCEPT !.col = Put(@, e.k, e.v)]
    [] e.op = "pattern" -> IF e.v < 0 THEN vw ELSE [vw EXCEPT !.pat = Put(@, e.k, e.v)]
    [] e.op = "filter" ->
         IF Applies(e)
         THEN Redraw(st, [vw EXCEPT !.hid = {NameOf(k) : k \in {x \in SetOf(vw.order) : ~Passes(e.f, x)}}])
         ELSE vw
    [] e.op = "home"   -> Redraw(st, vw)
    [] e.op = "click"  -> [vw EXCEPT !.ruler = IF @.on THEN NoRuler ELSE [on |-> TRUE, p |-> e.ret.items[e.i].g[e.j]]]
    [] e.op = "dbl"    -> [vw EXCEPT !.ruler = IF @.on THEN [on |-> TRUE, p |-> <<>>] ELSE NoRuler]
    [] OTHER           -> vw

Outline_(bg) == IF bg = "#202020" THEN "#ffffff" ELSE "#000000"
Grey(bg) == IF bg = "#202020" THEN "#909090" ELSE "#7f7f7f"
AnchorOf(an) == IF an = "o" THEN "center" ELSE an

(* ---- what the canvas and the layer list show ---------------------------- *)
Same(a, b) == Len(a) = Len(b) /\ (a = b \/ BagOf(a) = BagOf(b))
Runs(s) ==
  LET idx == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i = 1 \/ s[i] # s[i - 1]) IN [i \in 1..Len(idx) |-> s[idx[i]]]
Mean(g, i) == FoldSeq(LAMBDA p, acc : acc + p[i], 0, g) \div Len(g)

Shown(st, vw, r) ==
  LET boxes == Boxes(st)
      polys == SelectSeq(r.items, LAMBDA x : x.k = "polygon")
      texts == SelectSeq(r.items, LAMBDA x : x.k = "text" /\ x.key \notin boxes)
      marks == SelectSeq(r.items, LAMBDA x : x.k = "text" /\ x.key \in boxes)
      want == Polys(st, vw)
      wantb == SelectSeq(want, LAMBDA x : x.l < 0)
      n == Len(vw.order)
      stack == Runs(Map(LAMBDA x : x.key, r.items))
      layers == Map(NameOf, vw.order)
      Row(k) == r.rows[CHOOSE i \in 1..Len(r.rows) : r.rows[i].key = k]
      line == Outline_(vw.bg)
  IN IF ~Same(Map(LAMBDA x : <<x.key, Canon(x.g)>>, polys), Map(LAMBDA x : <<x.k, Canon(x.g)>>, want)) THEN "polygons shown"
     ELSE IF ~Same(Map(LAMBDA x : <<x.key, x.t, x.g[1], x.an>>, texts),
                   Map(LAMBDA b : <<NameOf(<<b.ly, b.tt>>), b.t, <<b.x, b.y>>, AnchorOf(b.an)>>, Texts(st, vw))) THEN "labels shown"
     ELSE IF ~Same(Map(LAMBDA x : <<x.key, "@" \o x.t>>, marks), Map(LAMBDA x : <<x.k, x.k>>, wantb)) THEN "names of the boxes"
     ELSE IF ~\A i \in 1..Len(marks) : \E j \in 1..Len(wantb) :
               wantb[j].k = marks[i].key /\ Abs(marks[i].g[1][1] - Mean(wantb[j].g, 1)) <= 2
               /\ Abs(marks[i].g[1][2] - Mean(wantb[j].g, 2)) <= 2 THEN "places of the names of the boxes"
     ELSE IF Map(LAMBDA x : x.key, r.rows) # layers THEN "list of layers"
     ELSE IF Len(stack) < n \/ SubSeq(stack, 1, n) # layers
             \/ \E i \in (n + 1)..Len(stack) : stack[i] \notin boxes THEN "stacking order"
     ELSE IF \E i \in 1..Len(r.items) : \E j \in 1..i :
               r.items[i].key = r.items[j].key /\ r.items[i].key \notin boxes /\ r.items[i].k = "polygon" /\ r.items[j].k = "text"
          THEN "a polygon over a label of its layer"
     ELSE IF \E x \in SetOf(r.items) : x.vis # (x.key \notin vw.hid) THEN "visibility of an item"
     ELSE IF \E x \in SetOf(r.rows) : x.fg # (IF x.key \in vw.hid THEN Grey(vw.bg) ELSE line) THEN "visibility in the list"
     ELSE IF \E x \in SetOf(r.rows) : x.icon # (IF Known(vw.col, x.key) THEN Value(vw.col, x.key) ELSE IF vw.dcol # "" THEN vw.dcol ELSE x.icon)
          THEN "colour in the list"
     ELSE IF \E x \in SetOf(r.rows) : x.pat # (IF Known(vw.pat, x.key) THEN Value(vw.pat, x.key) ELSE IF vw.dpat >= 0 THEN vw.dpat ELSE x.pat)
          THEN "pattern in the list"
     ELSE IF \E x \in SetOf(r.items) : x.key \notin boxes /\
               (x.fill # Row(x.key).icon \/ (x.k = "polygon" /\ x.out # x.fill)) THEN "colour of an item"
     ELSE IF \E x \in SetOf(polys) : x.key \notin boxes /\ x.pat # Row(x.key).pat THEN "pattern of an item"
     ELSE IF \E x \in SetOf(r.items) : x.key \in boxes /\
               (IF x.k = "polygon" THEN x.fill # "" \/ x.out # line ELSE x.fill # line) THEN "colour of a box"
     ELSE IF r.extra # (IF vw.ruler.on THEN <<"line">> ELSE <<>>) THEN "ruler shown"
     ELSE IF r.cell # vw.cell \/ r.bg # vw.bg THEN "cell or background"
     ELSE ""

\* colours and patterns chosen automatically stay
Learn(vw, r) ==
  [vw EXCEPT !.col = FoldLeft(LAMBDA acc, x : IF Known(acc, x.key) THEN acc ELSE Append(acc, <<x.key, x.icon>>), @, r.rows),
             !.pat = FoldLeft(LAMBDA acc, x : IF Known(acc, x.key) THEN acc ELSE Append(acc, <<x.key, x.pat>>), @, r.rows)]

(* ---- the place in the window --------------------------------------------- *)
Span(a, b) == Abs(a - b)
Inside(r, p, i) == r.win[i] - 3 * r.px <= p[i] /\ p[i] <= r.win[i + 2] + 3 * r.px
AllPoints(r) == Flat(Map(LAMBDA x : x.g, SelectSeq(r.items, LAMBDA x : x.k = "polygon")))
\* everything fits, and fills most of the window in one direction
Extents(r) ==
  LET ps == AllPoints(r) b == BoxOf(ps) IN
  ps # <<>> => /\ \A i \in 1..Len(ps) : Inside(r, ps[i], 1) /\ Inside(r, ps[i], 2)
               /\ \/ 10 * (b[3] - b[1]) >= 8 * (r.win[3] - r.win[1])
                  \/ 10 * (b[4] - b[2]) >= 8 * (r.win[4] - r.win[2])
Anything(r) == \E x \in SetOf(r.items) : x.vis
\* the same place, unless the view has come to the edge of what can be scrolled
Stays(r, i) == r.edge[i] \/ Span(r.was[i], r.now[i]) <= 3 * r.px
Ratio_(e) == IF e.op = "in" \/ (e.op = "wheel" /\ e.up) THEN 1500000 ELSE 666667
Fits(r) ==
  LET a == r.box[1] b == r.box[2] IN
  /\ \A i \in 1..2 : r.edge[i] \/ (Inside(r, a, i) /\ Inside(r, b, i))
  /\ \E i \in 1..2 : Span(r.win[i + 2] - r.win[i], Span(a[i], b[i])) <= 4 * r.px
  /\ \A i \in 1..2 : r.edge[i] \/ Span(r.win[i + 2] + r.win[i], a[i] + b[i]) <= 8 * r.px
Digits(x) == Abs(x) \div 100000 + 1
Near_(a, b, px) == Abs(a - b) <= px + Digits(a)

Place_(st, old, vw, e) ==
  LET r == e.ret IN
  CASE e.op \in {"open", "cell", "home"} \/ (e.op = "filter" /\ Applies(e)) ->
         IF ~Extents(r) THEN "extents"
         ELSE IF e.op # "open" /\ r.warn # (IF AllPoints(r) = <<>> THEN 1 ELSE 0) THEN "warning about an empty cell"
         ELSE IF ~r.kept THEN "the list given by the caller was changed"
         ELSE IF e.op = "filter" /\ ~r.closed THEN "dialog left open" ELSE ""
    [] e.op \in {"wheel", "in", "out"} ->
         IF Abs(r.zoom - Ratio_(e)) > 2 THEN "zoom factor"
         ELSE IF (Anything(r) \/ vw.ruler.on) /\ \E i \in 1..2 : ~Stays(r, i) THEN "centre of the zoom" ELSE ""
    [] e.op = "rect" ->
         IF e.x # e.x2 /\ e.y # e.y2 /\ (Anything(r) \/ vw.ruler.on) /\ ~Fits(r) THEN "zoom to a rectangle" ELSE ""
    [] OTHER ->
         IF Abs(r.zoom - 1000000) > 2 THEN "zoom changed by " \o e.op
         ELSE IF e.op = "depth" /\ r.shown # ToString(vw.depth) THEN "depth shown"
         ELSE IF e.op = "filter" /\ ~r.closed THEN "dialog left open"
         ELSE IF e.op = "at"
         THEN LET p == r.items[e.i].g[e.j] s == r.status v == s.v IN
              IF ~old.ruler.on
              THEN (IF s.k = "at" /\ Near_(p[1], v[1], r.px) /\ Near_(p[2], v[2], r.px) THEN "" ELSE "coordinates of the pointer")
              ELSE IF s.k # "ruler" THEN "no distance"
              ELSE IF old.ruler.p # <<>> /\ ~(Near_(p[1] - old.ruler.p[1], v[2], 2 * r.px) /\ Near_(p[2] - old.ruler.p[2], v[3], 2 * r.px))
              THEN "distance measured"
              ELSE LET a == Abs(v[1]) \div 100 b == Abs(v[2]) \div 100 c == Abs(v[3]) \div 100 IN
                   IF Abs(a * a - b * b - c * c) <= 4 * (a + b + c + 3) THEN "" ELSE "length of the ruler"
         ELSE IF e.op = "dbl"
         THEN LET none == r.hit = 0 \/ (r.hit > 0 /\ r.items[r.hit].k # "polygon") IN
              IF none THEN (IF r.info = <<>> THEN "" ELSE "information about nothing")
              ELSE LET x == r.items[r.hit] b == BoxOf(x.g) i == r.info IN
                   IF Len(i) # 1 THEN "no information"
                   ELSE IF i[1].key # x.key \/ i[1].n # Len(x.g) THEN "information about an element"
                   ELSE IF \A k \in 1..4 : Near_(b[k], i[1].b[k], 5 * r.px) THEN "" ELSE "bounding box of an element"
         ELSE ""

ViewClause(st, old, vw, e) ==
  IF e.ret.exc # "" THEN "outcome:" \o e.op \o ":" \o e.ret.exc
  ELSE LET s == Shown(st, vw, e.ret) IN
       IF s # "" THEN s \o " after " \o e.op
       ELSE LET p == Place_(st, old, vw, e) IN IF p = "" THEN "" ELSE p \o " (" \o e.op \o ")"
=============================================================================
