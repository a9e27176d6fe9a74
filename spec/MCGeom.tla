------------------------------- MODULE MCGeom -------------------------------
(***************************************************************************)
(* Every case of a small universe of shapes on a 3 x 3 grid: pairs of       *)
(* shapes under every operation.  TLC checks that the relation demanded of  *)
(* results is neither too strong nor too weak: the exact answer (as unit    *)
(* squares) is accepted, and the answer without any one of its squares or   *)
(* with any other one is not; and that regions obey the laws of the         *)
(* operations.  The cases themselves are replayed into the library.         *)
(***************************************************************************)
EXTENDS Geom, Json, IOUtils

CONSTANTS EMIT, N
\* the operation to explore, and whether with every second shape
Only == IOEnv.GEOM_OP
Full == IOEnv.GEOM_FULL = "1"
VARIABLES phase, a, b, case
vars == <<phase, a, b, case>>

Rect(x, y, w, h) == <<<<x, y>>, <<x + w, y>>, <<x + w, y + h>>, <<x, y + h>>>>
Rects == {Rect(x, y, w, h) : x \in 0..(N - 1), y \in 0..(N - 1), w \in 1..N, h \in 1..N} \ {<<>>}
RectsIn == {r \in Rects : r[3][1] <= N /\ r[3][2] <= N}
Turn4(g, q) == CASE q = 0 -> g
                 [] q = 1 -> [i \in 1..Len(g) |-> <<N - g[i][2], g[i][1]>>]
                 [] q = 2 -> [i \in 1..Len(g) |-> <<N - g[i][1], N - g[i][2]>>]
                 [] q = 3 -> [i \in 1..Len(g) |-> <<g[i][2], N - g[i][1]>>]
Ell == <<<<0, 0>>, <<2, 0>>, <<2, 1>>, <<1, 1>>, <<1, 3>>, <<0, 3>>>>
\* clockwise on purpose
You == <<<<0, 0>>, <<0, 3>>, <<1, 3>>, <<1, 1>>, <<2, 1>>, <<2, 3>>, <<3, 3>>, <<3, 0>>>>
Tee == <<<<0, 0>>, <<3, 0>>, <<3, 1>>, <<2, 1>>, <<2, 3>>, <<1, 3>>, <<1, 1>>, <<0, 1>>>>
Zed == <<<<0, 0>>, <<2, 0>>, <<2, 2>>, <<3, 2>>, <<3, 3>>, <<1, 3>>, <<1, 1>>, <<0, 1>>>>
\* a ring whose hole is linked to the outside by a slit
Ring == <<<<0, 0>>, <<3, 0>>, <<3, 3>>, <<0, 3>>, <<0, 1>>, <<1, 1>>, <<1, 2>>, <<2, 2>>, <<2, 1>>, <<0, 1>>>>
RectShapes == RectsIn \cup {Turn4(g, q) : g \in {Ell, You, Tee, Zed, Ring}, q \in 0..3}
\* crosses itself: two squares joined at a corner, traversed in opposite senses
Bow == <<<<0, 0>>, <<1, 0>>, <<1, 2>>, <<2, 2>>, <<2, 1>>, <<0, 1>>>>
Free == {<<<<0, 0>>, <<3, 0>>, <<0, 3>>>>, <<<<0, 0>>, <<1, 3>>, <<3, 2>>>>, <<<<0, 0>>, <<3, 1>>, <<3, 2>>, <<0, 3>>>>,
         <<<<1, 0>>, <<3, 1>>, <<2, 3>>, <<0, 2>>>>, <<<<0, 0>>, <<3, 0>>, <<1, 1>>, <<0, 3>>>>, <<<<0, 0>>, <<3, 3>>, <<3, 0>>, <<0, 3>>>>,
         <<<<0, 0>>, <<3, 0>>, <<0, 2>>, <<2, 3>>>>, <<<<0, 1>>, <<3, 1>>, <<1, 3>>, <<1, 0>>, <<3, 3>>>>, Bow}
\* second shapes of the quick exploration
Few == {Rect(0, 0, 1, 1), Rect(1, 1, 2, 2), Rect(0, 1, 3, 1), Rect(2, 0, 1, 3), Rect(0, 0, 3, 3), Turn4(Ell, 1), You, Zed, Ring, Bow,
        <<<<0, 0>>, <<3, 0>>, <<1, 1>>, <<0, 3>>>>}
Ops == {"or", "and", "not", "xor"}

item(gs) == <<[k |-> "polys", ps |-> gs]>>
Sqs(C, k) == LET s == SetToSeq(C) IN [i \in 1..Len(s) |-> ScaleG(Rect(s[i][1], s[i][2], 1, 1), k)]
Answer(C, k) == [none |-> C = {}, ps |-> Sqs(C, k), ls |-> [i \in 1..Cardinality(C) |-> 0], ds |-> [i \in 1..Cardinality(C) |-> 0]]
All == (0..(N - 1)) \X (0..(N - 1))
CellsOf(g) == Cells(<<ScaleG(g, 8)>>, <<0, N, 0, N>>)

Init == phase = 0 /\ a = <<>> /\ b = <<>> /\ case = [op |-> "none"]
PickA == phase = 0 /\ phase' = 1 /\ a' \in RectShapes \cup Free /\ UNCHANGED <<b, case>>
PickB == phase = 1 /\ phase' = 2 /\ b' \in (IF Full THEN RectShapes \cup Free ELSE Few) \cup {<<>>} /\ UNCHANGED <<a, case>>
rectil == a \notin Free /\ b \notin Free
two == IF b = <<>> THEN <<a>> ELSE <<a, b>>
PickCase ==
  /\ phase = 2 /\ phase' = 3
  /\ \/ \E o \in Ops : case' = [op |-> "bool", a |-> item(<<a>>), b |-> (IF b = <<>> THEN <<>> ELSE item(<<b>>)), o |-> o, mp |-> 0, ly |-> 0, dt |-> 0]
     \/ b = <<>> /\ \E o \in Ops : case' = [op |-> "bool", a |-> <<>>, b |-> item(<<a>>), o |-> o, mp |-> 0, ly |-> 0, dt |-> 0]
     \/ \E axis \in {0, 1}, at \in {<<1>>, <<2, 1>>, <<0, 3>>, <<1, 1>>, <<-1, 2, 5>>} :
          case' = [op |-> "slice", a |-> item(two), at |-> at, axis |-> axis, ly |-> <<0>>, dt |-> <<0>>]
     \/ case' = [op |-> "inside", a |-> item(two), mode |-> "points",
                 pts |-> <<SetToSeq({<<x, y>> : x \in (-1)..(2 * N + 1), y \in (-1)..(2 * N + 1)})>>]
     \/ rectil /\ a # Bow /\ \E d \in {1, -1}, jf \in {TRUE, FALSE} :
          /\ jf \/ \A g \in SetOf(two) : \A q \in 0..3 : g # Turn4(Ring, q)
          /\ case' = [op |-> "offset", a |-> item(two), d |-> d, jf |-> jf, mp |-> 0, ly |-> 0, dt |-> 0]
     \/ b = <<>> /\ Len(a) > 5 /\ \E mp \in {5, 6, 7} :
          case' = [op |-> "fracture", ps |-> <<a>>, ls |-> <<1>>, ds |-> <<2>>, mp |-> mp, pr |-> <<>>]
  /\ case'.op = Only
  /\ UNCHANGED <<a, b>>
Next == PickA \/ PickB \/ PickCase
Spec == Init /\ [][Next]_vars

(* ---- what the specification itself must satisfy ----------------------- *)
Ev(ret) == case @@ [rect |-> TRUE, K |-> 1, ret |-> ret]
Verdict(e) == CASE e.op = "bool" -> BoolClause(e) [] e.op = "offset" -> OffsetClause(e)
CA == CellsOf(a)
CB == IF b = <<>> THEN {} ELSE CellsOf(b)
Exact ==
  IF case.op = "bool" THEN
    LET A == IF case.a = <<>> THEN {} ELSE CA
        B == IF case.b = <<>> THEN {} ELSE IF case.a = <<>> THEN CA ELSE CB
    IN CASE case.o = "or" -> A \cup B [] case.o = "and" -> A \cap B [] case.o = "not" -> A \ B
         [] case.o = "xor" -> (A \ B) \cup (B \ A)
  ELSE IF case.d > 0 THEN Grow(CA \cup CB, case.d)
  ELSE IF case.jf THEN Shrink(CA \cup CB, -case.d)
  ELSE Shrink(CA, -case.d) \cup Shrink(CB, -case.d)
\* the exact answer is accepted, every other set of unit squares differing in one is not
\* (a fifth of the squares for offsets, which is slower to judge)
Some(C) == IF case.op = "offset" THEN {c \in C : (c[1] + 2 * c[2]) % 5 = 0} ELSE C
AcceptsExactly ==
  (phase = 3 /\ rectil /\ case.op \in {"bool", "offset"}) =>
    /\ Verdict(Ev(Answer(Exact, 1))) = ""
    /\ \A c \in Some(Exact) : Verdict(Ev(Answer(Exact \ {c}, 1))) # ""
    /\ \A c \in Some(All \ Exact) : Verdict(Ev(Answer(Exact \cup {c}, 1))) # ""
    /\ \A c \in Some(Exact) : LET r == Answer(Exact, 1) IN
         Verdict(Ev([r EXCEPT !.ps = @ \o Sqs({c}, 1), !.ls = @ \o <<0>>, !.ds = @ \o <<0>>])) # ""
\* strips of the exact partition are accepted; a square in the wrong strip is not
Strip(i, C) == LET cuts == Sorted(case.at) n == Len(cuts) + 1 ax == case.axis + 1 IN
               {c \in C : (i = 1 \/ c[ax] >= cuts[i - 1]) /\ (i = n \/ c[ax] < cuts[i])}
SliceEv(ret) == [case EXCEPT !.at = [j \in 1..Len(case.at) |-> 8 * case.at[j]]] @@ [rect |-> TRUE, K |-> 1, ret |-> ret]
\* one square for each polygon covering it
Cover(A, B) == LET u == Answer(A, 1) v == Answer(B, 1) IN
               [none |-> A = {} /\ B = {}, ps |-> u.ps \o v.ps, ls |-> u.ls \o v.ls, ds |-> u.ds \o v.ds]
SliceExact ==
  (phase = 3 /\ rectil /\ case.op = "slice") =>
    LET n == Len(case.at) + 1
        good == [i \in 1..n |-> Cover(Strip(i, CA), Strip(i, CB))]
    IN /\ SliceClause(SliceEv(good)) = ""
       /\ \A i \in 1..n, j \in 1..n : (i # j /\ good[i] # good[j]) => SliceClause(SliceEv([good EXCEPT ![i] = good[j]])) # ""
\* regions: orientation and the first vertex do not matter; membership agrees with the cells
Shifted(g) == Tail(g) \o <<Head(g)>>
Regions ==
  (phase = 1) =>
    /\ \A c \in All : LET p == <<8 * c[1] + 3, 8 * c[2] + 5>> g == ScaleG(a, 8) IN
         /\ In(Oriented(<<g>>), p) = In(Oriented(<<Reverse(g)>>), p)
         /\ Wind(g, p) = Wind(Shifted(g), p) /\ Wind(g, p) = -Wind(Reverse(g), p)
    /\ (a \in RectShapes) => \A c \in All : (c \in CellsOf(a)) = Holds(ScaleG(a, 2), <<2 * c[1] + 1, 2 * c[2] + 1>>)
\* growing and shrinking are adjoint
Adjoint ==
  (phase = 2 /\ rectil) => /\ (Grow(CA, 1) \subseteq Grow(CB, 1)) \/ ~(CA \subseteq CB)
                           /\ (Grow(CA, 1) \subseteq CB) = (CA \subseteq Shrink(CB, 1))
                           /\ CA \subseteq Shrink(Grow(CA, 1), 1) /\ Grow(Shrink(CA, 1), 1) \subseteq CA
Emit == (EMIT /\ phase' = 3) => PrintT("EMIT " \o ToJson(case' @@ [rect |-> rectil]))
=============================================================================
