-------------------------------- MODULE MCSvg --------------------------------
(* The way documents are composed (one group per cell, one use per copy,   *)
(* the list of transforms of a reference and of a text) shows what the     *)
(* cells show, for every layout explored by MCHier.                        *)
EXTENDS MCHier, Svg

Shift(x, y) == [Upright EXCEPT !.x = x, !.y = y]
Turn(q, th) == [Upright EXCEPT !.q = q % 4, !.th = th]
Mirror(xr) == IF xr THEN <<[Upright EXCEPT !.xr = TRUE]>> ELSE <<>>
Enlarge(m) == [Upright EXCEPT !.m = m]

GroupId(s, c) == "g" \o s.cells[c].name \o ToString(c)
GroupItems(s, c) ==
  Map(LAMBDA x : [k |-> "polygon", cls |-> ClassOf(x.l, x.d), tf |-> <<>>, g |-> x.g], OwnShapes(s, c))
  \o Map(LAMBDA i : LET b == s.el[i] IN
           [k |-> "text", cls |-> TextClass(b.ly, b.tt), t |-> b.t, ta |-> TA(b.an), da |-> DA(b.an),
            tf |-> Mirror(TRUE) \o <<Shift(b.x, -b.y), Turn(-b.q, -b.th)>> \o Mirror(b.xr) \o <<Enlarge(b.m)>>],
         s.cells[c].L)
  \o Flat(Map(LAMBDA i : LET r == s.el[i] cs == Copies(r) IN
           IF r.o = 0 THEN <<>>
           ELSE [k \in 1..Len(cs) |->
                   [k |-> "use", href |-> GroupId(s, r.o),
                    tf |-> <<Shift(r.x, r.y), Turn(r.q, r.th)>> \o Mirror(r.xr)
                           \o <<Shift(cs[k][1] * r.sx, cs[k][2] * r.sy), Enlarge(r.m)>>]],
         s.cells[c].R))
Group(s, c, tf) == [k |-> "g", id |-> GroupId(s, c), tf |-> tf, items |-> GroupItems(s, c)]
Document(s, c) ==
  [defs |-> Map(LAMBDA d : Group(s, d, <<>>), SetToSeq(Deps(s, c))), items |-> <<Group(s, c, Mirror(TRUE))>>]

DocumentShows ==
  \A c \in Cells :
    LET d == Document(st, c)
        groups == AllGroups(d.defs) \o AllGroups(d.items)
        shown == Shown(groups, d.items, 12)
    IN /\ SameItems(Map(LAMBDA x : <<x.cls, Canon(x.g)>>, SelectSeq(shown, LAMBDA x : x.k = "polygon")), SeenPolys(st, c))
       /\ SameItems(Map(LAMBDA x : <<x.cls, x.t, x.ta, x.da, x.s>>, SelectSeq(shown, LAMBDA x : x.k = "text")), SeenTexts(st, c))
       /\ ~\E x \in SetOf(shown) : x.k = "endless"
=============================================================================
