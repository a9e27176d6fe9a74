-------------------------------- MODULE MCHier --------------------------------
(* Exhaustive exploration of Hier from a small layout (two cells with      *)
(* shapes and a label, one empty), and the generator of the histories      *)
(* replayed into the real code.                                            *)
EXTENDS Hier, Json

CONSTANTS MaxLen, MaxRefs, Editing, Emitting

VARIABLES st, h
vars == <<st, h>>

Prefix == <<
  [op |-> "cell", name |-> "A"], [op |-> "cell", name |-> "B"], [op |-> "cell", name |-> "C"],
  [op |-> "poly", c |-> 1, pr |-> "", form |-> "list",
   ps |-> << << <<0, 0>>, <<6, 0>>, <<6, 2>>, <<0, 4>> >>, << <<8, 0>>, <<9, 0>>, <<8, 5>> >> >>,
   ls |-> <<1, 2>>, ds |-> <<0, 3>>],
  [op |-> "path", c |-> 1, pr |-> "1=k", form |-> "one", typ |-> "flex", gp |-> FALSE,
   sp |-> << <<0, 6>>, <<8, 6>>, <<8, 14>> >>, ws |-> <<2>>, os |-> <<0>>, ex |-> << <<0, 0>> >>, en |-> <<"flush">>,
   ls |-> <<5>>, ds |-> <<1>>],
  [op |-> "label", c |-> 1, pr |-> "", form |-> "one", t |-> "T", x |-> 3, y |-> 1, an |-> "sw", ly |-> 5, tt |-> 3,
   q |-> 1, th |-> 0, m |-> 128, xr |-> TRUE],
  [op |-> "poly", c |-> 2, pr |-> "1=z", form |-> "iter",
   ps |-> << << <<-4, -2>>, <<-1, -2>>, <<-4, 6>> >> >>, ls |-> <<2>>, ds |-> <<0>>] >>

RefKinds == {
  [x |-> 10, y |-> -6, q |-> 1, th |-> 0, m |-> 64, xr |-> TRUE, arr |-> FALSE, co |-> 1, ro |-> 1, sx |-> 0, sy |-> 0],
  [x |-> 0, y |-> 0, q |-> 0, th |-> 1, m |-> 128, xr |-> FALSE, arr |-> TRUE, co |-> 2, ro |-> 1, sx |-> 20, sy |-> 8],
  [x |-> -5, y |-> 5, q |-> 3, th |-> 0, m |-> 32, xr |-> TRUE, arr |-> TRUE, co |-> 1, ro |-> 2, sx |-> -10, sy |-> 15],
  [x |-> 5, y |-> 0, q |-> 2, th |-> -1, m |-> 64, xr |-> FALSE, arr |-> FALSE, co |-> 1, ro |-> 1, sx |-> 0, sy |-> 0] }
Moves == {
  [on |-> FALSE, x |-> 0, y |-> 0, q |-> 0, th |-> 0, m |-> 64, xr |-> FALSE, tx |-> FALSE, rt |-> FALSE, sl |-> FALSE],
  [on |-> TRUE, x |-> 0, y |-> 0, q |-> 0, th |-> 0, m |-> 64, xr |-> TRUE, tx |-> FALSE, rt |-> FALSE, sl |-> FALSE],
  [on |-> TRUE, x |-> 15, y |-> -5, q |-> 1, th |-> 0, m |-> 128, xr |-> TRUE, tx |-> TRUE, rt |-> TRUE, sl |-> TRUE],
  [on |-> TRUE, x |-> 0, y |-> 0, q |-> 0, th |-> 1, m |-> 64, xr |-> FALSE, tx |-> FALSE, rt |-> TRUE, sl |-> FALSE] }

Cells == 1..Len(st.cells)
Held == UNION {SetOf(st.cells[c].R) : c \in Cells}
NRefs == Cardinality({i \in 1..Len(h) : h[i].op = "ref"})
NCopies == Cardinality({i \in 1..Len(h) : h[i].op = "copy"})
Num == Len(h)

\* no magnification below one and no oblique angle twice in a chain: all
\* coordinates stay multiples of 1/1000
Test == {[by |-> "layer", v |-> 2, v2 |-> 0], [by |-> "left", v |-> 0, v2 |-> 0]}

Acyclic(s) == \A c \in 1..Len(s.cells) :
  LET R[k \in 0..Len(s.cells)] == IF k = 0 THEN Direct(s, c) ELSE R[k - 1] \cup UNION {Direct(s, x) : x \in R[k - 1]}
  IN c \notin R[Len(s.cells)]

Events ==
  (IF NRefs >= MaxRefs THEN {} ELSE
   {[op |-> "ref", c |-> c, o |-> o, n |-> IF o = 0 THEN "nowhere" ELSE "", x |-> k.x, y |-> k.y, q |-> k.q, th |-> k.th, m |-> k.m,
     xr |-> k.xr, arr |-> k.arr, co |-> k.co, ro |-> k.ro, sx |-> k.sx, sy |-> k.sy, pr |-> "", form |-> "one"] :
        c \in Cells \ {1}, o \in 0..Len(st.cells), k \in RefKinds})
  \cup {[op |-> "flatten", c |-> c, sl |-> v[1], sd |-> v[2], st |-> v[3]] :
        c \in Cells \ {1}, v \in {<<-1, -1, -1>>, <<7, -1, 8>>, <<-1, 9, -1>>}}
  \cup (IF NCopies > 0 THEN {} ELSE
        {[op |-> "copy", c |-> c, name |-> "K", deep |-> d, w |-> w] : c \in Cells, d \in BOOLEAN, w \in Moves})
  \cup {[op |-> "rmpoly", c |-> c, test |-> t] : c \in {1, 2}, t \in Test}
  \cup {[op |-> "rmpath", c |-> 1, test |-> [by |-> "datatype", v |-> 1, v2 |-> 0]],
        [op |-> "rmlabel", c |-> 1, test |-> [by |-> "pair", v |-> 5, v2 |-> 3]]}
  \cup {[op |-> "share", c |-> c, e |-> i] : c \in {2, 3}, i \in {1, 2}}
  \cup {[op |-> "rebind", a |-> a, b |-> b, obj |-> TRUE] : a \in {1, 2}, b \in {1, 2, 3}}
  \cup {[op |-> "rmref", a |-> a] : a \in {1, 2}}
  \cup (IF ~Editing THEN {} ELSE
        {[op |-> "edit", e |-> i, f |-> f, x |-> 3, y |-> 2, v |-> 4, i |-> 1, p |-> "", pv |-> ""] :
            i \in {j \in 1..Len(st.el) : st.el[j].k = "poly"}, f \in {"translate", "layer"}})

Start == LET S[i \in 0..Len(Prefix)] == IF i = 0 THEN InitHier ELSE Apply(S[i - 1], Prefix[i]) IN S[Len(Prefix)]
Init == st = Start /\ h = Prefix

Sane(s) ==
  \* only one halving and one oblique turn along any path of references
  \A c \in 1..Len(s.cells) :
    LET RECURSIVE H(_, _)
        H(x, a) == a <= 1 /\ \A i \in 1..Len(s.cells[x].R) :
                     LET r == s.el[s.cells[x].R[i]] IN
                     r.o # 0 => H(r.o, a + (IF r.m % 64 # 0 \/ r.th # 0 THEN 1 ELSE 0))
    IN H(c, 0)

Ok(e) ==
  /\ e.op = "ref" => (e.o # 0 => (e.o # e.c /\ e.c \notin Deps(st, e.o)))
  /\ e.op = "rebind" => (e.a # e.b /\ e.a \in UNION {Direct(st, c) : c \in Cells})
  /\ e.op = "rmref" => e.a \in UNION {Direct(st, c) : c \in Cells}
  \* an oblique copy of what is already oblique or halved leaves the grid
  /\ (e.op = "copy" /\ e.w.on /\ e.w.th # 0) =>
        \A i \in 1..Len(st.el) : st.el[i].k = "ref" => (st.el[i].th = 0 /\ st.el[i].m >= 64)

Take(e) ==
  /\ Ok(e)
  /\ LET s == Apply(st, e) IN
     /\ Acyclic(s) /\ Sane(s)
     /\ st' = s
     /\ h' = Append(h, e)
Next == Len(h) < Len(Prefix) + MaxLen /\ \E e \in Events : Take(e)
Spec == Init /\ [][Next]_vars
View == st
Emit == IF Emitting THEN PrintT("EMIT " \o ToJson(h')) ELSE TRUE

(* ---- what the design guarantees ---------------------------------------- *)
Bag(items) == BagOf(Map(LAMBDA i : <<i.k, Canon(i.g)>>, items))
\* labels up to what flattening drops
Where(ls) == BagOf(Map(LAMBDA b : <<b.t, b.x, b.y, b.ly, b.tt, b.pr>>, ls))
E == h'[Len(h')]

\* C07: the area is that of what is shown; per layer and in total
AreaIsShown ==
  \A c \in Cells :
    LET items == Show(st, c, INF) IN
    /\ Area(st, c) = Sum(Map(LAMBDA i : i.a, items))
    /\ \A k \in Keys(st, c) : AreaKey(st, c, k) = Sum(Map(LAMBDA i : IF <<i.l, i.d>> = k THEN i.a ELSE 0, items))
\* C09: the layers are those of what is shown
LayersAreShown ==
  \A c \in Cells : Keys(st, c) = {<<i.l, i.d>> : i \in SetOf(Show(st, c, INF))}
\* C03: polygons, polygon sets and paths are the same shapes
SameShapes ==
  \A c \in Cells :
    Bag(Show(st, c, INF)) =
    Bag(Map(Item, Flat(Map(LAMBDA x : x.s, Sets(st, c, "P", INF) \o Sets(st, c, "H", INF)))))
\* C06: without oblique angles the box does not depend on the depth limit
BoxAnyDepth ==
  (\A i \in 1..Len(st.el) : st.el[i].k = "ref" => st.el[i].th = 0) =>
     \A c \in Cells : \A d \in {0, 1} : BoxOf(Points(Show(st, c, d))) = BBox(st, c)
\* C04: flattening changes nothing but the tags asked for, and leaves no reference
FlattenKeeps ==
  [][E.op = "flatten" =>
       LET tag(i) == [i EXCEPT !.l = IF E.sl >= 0 THEN E.sl ELSE @, !.d = IF E.sd >= 0 THEN E.sd ELSE @]
           lab(b) == [b EXCEPT !.ly = IF E.sl >= 0 THEN E.sl ELSE @, !.tt = IF E.st >= 0 THEN E.st ELSE @]
       IN
       /\ st'.cells[E.c].R = <<>>
       /\ Bag(Show(st', E.c, 0)) = Bag(Map(LAMBDA i : Item(tag(i)), Show(st, E.c, INF)))
       /\ Where(Labels(st', E.c, 0, FALSE)) = Where(Map(lab, Labels(st, E.c, INF, FALSE)))
       /\ \A c \in Cells : E.c \notin Deps(st, c) /\ c # E.c => Bag(Show(st', c, INF)) = Bag(Show(st, c, INF))]_vars
\* C05: a transformed copy shows the image of what the original shows
CopyIsImage ==
  [][E.op = "copy" =>
       LET w == [E.w EXCEPT !.x = @ * SC, !.y = @ * SC]
           k == Len(st'.cells)
       IN
       /\ Bag(Show(st', k, INF)) =
            Bag(Map(LAMBDA i : MoveShape(i, LAMBDA p : Move(w, p), w.m), Show(st, E.c, INF)))
       /\ Where(Labels(st', k, INF, TRUE)) =
            Where(Map(LAMBDA b : LET p == Move(w, <<b.x, b.y>>) IN [b EXCEPT !.x = p[1], !.y = p[2]],
                      Labels(st, E.c, INF, TRUE)))
       /\ (E.deep \/ E.w.on) =>
            LET s == st'.cells[k] IN
            (SetOf(s.P) \cup SetOf(s.H) \cup SetOf(s.L) \cup SetOf(s.R)) \cap 1..Len(st.el) = {}]_vars
\* editing an element changes only the cells that hold it, directly or below
Holds(s, c, i) ==
  \E x \in {c} \cup Deps(s, c) : i \in SetOf(s.cells[x].P) \cup SetOf(s.cells[x].H)
EditsAreLocal ==
  [][E.op = "edit" => \A c \in Cells : ~Holds(st, c, E.e) => Bag(Show(st', c, INF)) = Bag(Show(st, c, INF))]_vars
\* C10: removals remove exactly what the test selects, only there
RemovalIsExact ==
  [][E.op = "rmpoly" =>
       /\ BagOf(Map(CanonShape, Flat(Map(LAMBDA x : x.s, Els(st', st'.cells[E.c].P))))) =
          BagOf(Map(CanonShape, SelectSeq(Flat(Map(LAMBDA x : x.s, Els(st, st.cells[E.c].P))), LAMBDA s : ~Hit(E.test, s))))
       /\ \A c \in Cells \ {E.c} : st'.cells[c] = st.cells[c]
       /\ \A i \in 1..Len(st.el) : st'.el[i] = st.el[i]]_vars
=============================================================================
