------------------------------- MODULE MCShapes -------------------------------
(***************************************************************************)
(* Every sequence (up to Depth) of transformations and sections from a     *)
(* small repertoire, on a path with one section drawn and on a polygon.    *)
(* TLC checks the geometry the specification itself relies on: areas,      *)
(* boxes and angles change as they must, the end of a path stays attached  *)
(* to what is drawn, sections follow each other without a gap.  The        *)
(* sequences are emitted and replayed into the library.                    *)
(***************************************************************************)
EXTENDS Shapes, Json

CONSTANTS EMIT, Depth
VARIABLES g, tt, drawn, seq, k2
vars == <<g, tt, drawn, seq, k2>>

Quarters4 == {<<0, E6>>, <<-E6, 0>>, <<0, -E6>>}
Moves == {[f |-> "translate", x |-> 300000, y |-> -150000], [f |-> "translate", x |-> 0, y |-> 25000]}
    \cup {[f |-> "rotate", e |-> e, c |-> c] : e \in Quarters4 \cup {<<600000, 800000>>}, c \in {<<0, 0>>, <<100000, -200000>>}}
    \cup {[f |-> "scale", sx |-> s, sy |-> s, c |-> c] : s \in {<<2, 1>>, <<-1, 1>>, <<1, 2>>}, c \in {<<0, 0>>, <<-50000, 300000>>}}
    \cup {[f |-> "scale", sx |-> <<-1, 1>>, sy |-> <<2, 1>>, c |-> <<100000, 100000>>]}
    \cup {[f |-> "mirror", p |-> p, v |-> v] : p \in {<<0, 0>>, <<200000, 100000>>}, v \in {<<1, 0>>, <<0, 1>>, <<1, -1>>, <<3, 1>>}}
Poly0 == <<<<0, 0>>, <<400000, 0>>, <<400000, 100000>>, <<100000, 200000>>, <<0, 100000>>>>
Path0 == [k |-> "path", p |-> <<100000, 0>>, e |-> <<E6, 0>>, w |-> 50000, d |-> 200000, len |-> 0, n |-> 2]
\* what a transformation makes of the end of a path
EndOf(m, t) == LET s(v) == IF m.f = "scale" THEN Ratio(v, m.sx[1], m.sx[2]) ELSE v
               IN [t EXCEPT !.p = MapP(m, t.p), !.e = MapE(m, t.e), !.w = s(t.w), !.d = s(t.d), !.len = Abs(s(t.len))]
Secs == {[op |-> "seg", len |-> l, e |-> e, ax |-> 0, fw |-> NONE, fd |-> fd, ly |-> <<0, 1>>, dt |-> <<0>>, diag |-> l]
          : l \in {200000, 350000}, e \in {<<0, E6>>, <<-800000, 600000>>}, fd \in {NONE, 300000}}

Init == /\ seq = <<>> /\ k2 = 1
        /\ g = Poly0 /\ tt = Path0 /\ drawn = <<>>
Room == \A p \in SetOf(g) \cup {tt.p} : Abs(p[1]) < 4000000 /\ Abs(p[2]) < 4000000
Move(m) == /\ g' = MapG(m, g)
           /\ tt' = EndOf(m, tt)
           /\ drawn' = [i \in 1..Len(drawn) |-> <<MapG(m, drawn[i][1]), drawn[i][2], drawn[i][3]>>]
           /\ seq' = Append(seq, [t |-> "move", m |-> m])
           /\ k2' = IF m.f = "scale" THEN k2 ELSE k2
Section(e) ==
  /\ LET fd == IF e.fd = NONE THEN tt.d ELSE e.fd IN
     /\ drawn' = drawn \o SegPolys(e, tt, tt.w, fd)
     /\ tt' = [tt EXCEPT !.p = SegEnd(e, tt), !.e = e.e, !.d = fd, !.len = tt.len + e.len]
  /\ g' = g /\ k2' = k2
  /\ seq' = Append(seq, [t |-> "seg", s |-> e])
Next == /\ Len(seq) < Depth /\ Room
        /\ \/ \E m \in Moves : Move(m)
           \/ \E e \in Secs : Section(e)
Spec == Init /\ [][Next]_vars

(* ---- laws ----------------------------------------------------------------- *)
Factor(m) == IF m.f = "scale" THEN Abs(m.sx[1] * m.sy[1]) ELSE 1
Under(m) == IF m.f = "scale" THEN m.sx[2] * m.sy[2] ELSE 1
\* areas scale with the factors, and nothing else changes them
Areas == [][LET m == IF Len(seq') > 0 THEN seq'[Len(seq')] ELSE [t |-> "none"] IN
            m.t = "move" => Abs(Area2(g') * Under(m.m) - Area2(g) * Factor(m.m)) <= 400 + Area2(g) \div 500]_vars
\* a transformation that keeps shapes keeps squared lengths (in small units)
D2(p, q) == LET x == (p[1] - q[1]) \div 1000 y == (p[2] - q[2]) \div 1000 IN x * x + y * y
Rigid == [][LET m == IF Len(seq') > 0 THEN seq'[Len(seq')] ELSE [t |-> "none"] IN
            m.t = "move" /\ m.m.f # "scale" => Abs(D2(g'[1], g'[3]) - D2(g[1], g[3])) <= 60 + D2(g[1], g[3]) \div 100]_vars
\* the same map again undoes a mirror, half turns and point reflections
Undoes == \A m \in Moves : (m.f = "mirror" \/ (m.f = "rotate" /\ m.e = <<-E6, 0>>) \/ (m.f = "scale" /\ m.sx = <<-1, 1>> /\ m.sy = m.sx))
                           => NearS(MapG(m, MapG(m, Poly0)), Poly0, T)
\* directions are kept unit vectors
Unitary == Abs(Mul6(tt.e[1], tt.e[1]) + Mul6(tt.e[2], tt.e[2]) - E6) <= 40
\* the end of the path is in the middle of the ends of its last sections,
\* unless factors differ or the path was turned over afterwards
Same == \A i \in 1..Len(seq) : seq[i].t = "move" => Similar(seq[i].m)
Attached == (Same /\ drawn # <<>>) =>
  LET a == drawn[Len(drawn)][1] b == drawn[Len(drawn) - 1][1]
      q == <<((a[3][1] + a[4][1]) \div 2 + (b[3][1] + b[4][1]) \div 2) \div 2, ((a[3][2] + a[4][2]) \div 2 + (b[3][2] + b[4][2]) \div 2) \div 2>>
  IN NearP(tt.p, q, 60)
\* what the clauses demand accepts these histories and not neighbouring ones
Obj(t, dr) == [ps |-> [i \in 1..Len(dr) |-> dr[i][1]], ls |-> [i \in 1..Len(dr) |-> dr[i][2]], ds |-> [i \in 1..Len(dr) |-> dr[i][3]],
               pr |-> <<>>, tt |-> t]
Accepts == [][LET m == IF Len(seq') > 0 THEN seq'[Len(seq')] ELSE [t |-> "none"]
                  a == Obj(tt, drawn) b == Obj(tt', drawn')
                  wrong == [b EXCEPT !.ps = IF b.ps = <<>> THEN <<>> ELSE [b.ps EXCEPT ![1] = [b.ps[1] EXCEPT ![1] = <<@[1] + 500, @[2]>>]]]
              IN IF m.t = "move" THEN /\ MoveClause(m.m, a, b) = ""
                                      /\ b.ps = <<>> \/ MoveClause(m.m, a, wrong) # ""
                                      /\ MoveClause(m.m, a, [b EXCEPT !.tt.p = <<@[1], @[2] + 500>>]) # ""
                 ELSE m.t = "seg" => /\ SegClause(m.s, a, b) = ""
                                     /\ SegClause(m.s, a, wrong) # ""
                                     /\ SegClause(m.s, a, [b EXCEPT !.tt.d = @ + 100]) # ""]_vars
Emit == EMIT /\ Len(seq') = Depth => PrintT("EMIT " \o ToJson(seq'))
=============================================================================
