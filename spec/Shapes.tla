-------------------------------- MODULE Shapes --------------------------------
(***************************************************************************)
(* Polygon sets and the shapes built on them: what constructing one gives, *)
(* what transformations do to it, and what it answers.                     *)
(*                                                                         *)
(* State: a sequence of objects                                            *)
(*   [ps, ls, ds, pr, tt]   polygons, layers, datatypes, properties and    *)
(*                          the end of a path:                             *)
(*   tt = [k |-> "none"] | [k |-> "l1", p, e]                              *)
(*      | [k |-> "path", p, e, w, d, len, n]                               *)
(* p: position, e: direction, w: half width, d: distance between paths,    *)
(* len: length, n: number of paths.                                        *)
(***************************************************************************)
EXTENDS Num, Glyphs

T == 12        \* tolerance of comparisons
Cv == INSTANCE RobustPath   \* curves and their frames

(* ---- maps of the plane -------------------------------------------------- *)
\* f: [f |-> "translate", x, y] | [f |-> "rotate", e, c]
\*  | [f |-> "scale", sx, sy (each <<num, den>>), c] | [f |-> "mirror", p, v]
MirrorE(v) == LET n == v[1] * v[1] + v[2] * v[2] IN
              <<((v[1] * v[1] - v[2] * v[2]) * E6) \div n, (2 * v[1] * v[2] * E6) \div n>>
Flip6(q, e2) == <<Mul6(q[1], e2[1]) + Mul6(q[2], e2[2]), Mul6(q[1], e2[2]) - Mul6(q[2], e2[1])>>
MapP(m, p) ==
  CASE m.f = "translate" -> Add(p, <<m.x, m.y>>)
    [] m.f = "rotate" -> Add(m.c, Rot6(Sub(p, m.c), m.e))
    [] m.f = "scale" -> LET d == Sub(p, m.c) IN Add(m.c, <<Ratio(d[1], m.sx[1], m.sx[2]), Ratio(d[2], m.sy[1], m.sy[2])>>)
    [] m.f = "mirror" -> Add(m.p, Flip6(Sub(p, m.p), MirrorE(m.v)))
MapE(m, e) ==
  CASE m.f = "rotate" -> Rot6(e, m.e)
    [] m.f = "mirror" -> Flip6(e, MirrorE(m.v))
    [] OTHER -> e
MapG(m, g) == [i \in 1..Len(g) |-> MapP(m, g[i])]
\* how many times larger distances can become, for the tolerance
Stretch(m) == IF m.f = "scale" THEN 1 + Max2(Abs(m.sx[1]) \div m.sx[2], Abs(m.sy[1]) \div m.sy[2]) ELSE 1
Similar(m) == m.f # "scale" \/ Abs(m.sx[1]) * m.sy[2] = Abs(m.sy[1]) * m.sx[2]

MovedEnd(m, a, b) ==
  LET tol == T * Stretch(m)
      k(v) == IF m.f = "scale" THEN Ratio(v, Abs(m.sx[1]), m.sx[2]) ELSE v
  IN IF a.k # b.k THEN "kind"
     ELSE IF a.k = "none" THEN ""
     ELSE IF ~NearP(b.p, MapP(m, a.p), tol) THEN "end position"
     ELSE IF ~NearP(b.e, MapE(m, a.e), 20) THEN "direction"
     ELSE IF a.k = "l1" THEN ""
     ELSE IF ~Near(Abs(b.w), Abs(k(a.w)), tol) THEN "width"
     ELSE IF ~Near(Abs(b.d), Abs(k(a.d)), tol) THEN "distance"
     ELSE IF Similar(m) /\ ~Near(b.len, k(a.len), tol) THEN "length"
     ELSE IF b.n # a.n THEN "number of paths"
     ELSE ""
MoveClause(m, a, b) ==
  IF Len(a.ps) # Len(b.ps) THEN m.f \o ": number of polygons"
  ELSE IF \E i \in 1..Len(a.ps) : Len(a.ps[i]) # Len(b.ps[i]) THEN m.f \o ": number of points"
  ELSE IF ~Finite(b.ps) THEN m.f \o ": not finite"
  ELSE IF \E i \in 1..Len(a.ps) : ~NearS(b.ps[i], MapG(m, a.ps[i]), T * Stretch(m)) THEN m.f \o ": a vertex"
  ELSE IF b.ls # a.ls \/ b.ds # a.ds THEN m.f \o ": layers or datatypes"
  ELSE IF b.pr # a.pr THEN m.f \o ": properties"
  ELSE LET c == MovedEnd(m, a.tt, b.tt) IN IF c = "" THEN "" ELSE m.f \o ": " \o c

(* ---- construction ------------------------------------------------------- *)
Uniform(o, ly, dt) == /\ Len(o.ls) = Len(o.ps) /\ Len(o.ds) = Len(o.ps)
                      /\ \A i \in 1..Len(o.ps) : o.ls[i] = ly /\ o.ds[i] = dt
Tagged(o) == [i \in 1..Len(o.ps) |-> <<o.ps[i], o.ls[i], o.ds[i]>>]
LikeG(f, g) == NearG(f, g, T)
LikeT(a, b) == a[2] = b[2] /\ a[3] = b[3] /\ NearG(a[1], b[1], T)

RectG(a, b) == <<a, <<a[1], b[2]>>, b, <<b[1], a[2]>>>>

\* text: position of the pen after each character
Pen(s, q, hor) ==
  IF q = 10 THEN IF hor THEN <<0, s[2] - 11>> ELSE <<s[1] + 8, 0>>
  ELSE IF q = 9 THEN IF hor THEN <<((s[1] + 8) \div 32) * 32 + 24, s[2]>>
                            ELSE <<s[1], 44 * ((s[2] - 22) \div 44) + 11>>
  ELSE IF hor THEN <<s[1] + 8, s[2]>> ELSE <<s[1], s[2] - 11>>
RECURSIVE PensOf(_, _, _, _)
PensOf(q, i, s, hor) == IF i > Len(q) THEN <<>> ELSE <<s>> \o PensOf(q, i + 1, Pen(s, q[i], hor), hor)
TextPolys(e) ==
  LET pen == PensOf(e.q, 1, <<0, 0>>, e.hor)
      at(i, v) == Add(e.p, Rot6(<<Ratio(e.size, pen[i][1] + v[1], 9), Ratio(e.size, pen[i][2] + v[2], 9)>>, e.e))
      of(i) == IF e.q[i] > 126 THEN <<>> ELSE
               LET g == Glyphs[e.q[i]] IN [j \in 1..Len(g) |-> [k \in 1..Len(g[j]) |-> at(i, g[j][k])]]
  IN Flat([i \in 1..Len(e.q) |-> of(i)])

\* rectilinear paths: lens, turns, w (half width), d, n, p, q (quarter turns
\* of the initial direction).  Section k of path j runs at |t_k| d_j to the
\* left of the spine with half width |t_k| w.
Quarter(q) == CASE q % 4 = 0 -> <<1, 0>> [] q % 4 = 1 -> <<0, 1>> [] q % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
Along(p, k, u) == <<p[1] + k * u[1], p[2] + k * u[2]>>
Sg(x) == IF x > 0 THEN 1 ELSE -1
RECURSIVE Quarters(_, _, _)
Quarters(q, turns, i) == IF i > Len(turns) THEN <<q>> ELSE <<q>> \o Quarters(q + Sg(turns[i]), turns, i + 1)
RECURSIVE Spine(_, _, _, _)
Spine(p, qs, lens, i) == IF i > Len(lens) THEN <<p>> ELSE <<p>> \o Spine(Along(p, lens[i], Quarter(qs[i])), qs, lens, i + 1)
L1Side(e, off) ==
  LET qs == Quarters(e.q, e.turns, 1)
      sp == Spine(e.p, qs, e.lens, 1)
      m == Len(e.lens)
      o(k) == IF k = 1 THEN off ELSE Abs(e.turns[k - 1]) * off
      L(k) == Quarter(qs[k] + 1)
  IN [k \in 1..(m + 1) |->
        IF k = 1 THEN Along(sp[1], o(1), L(1))
        ELSE IF k = m + 1 THEN Along(sp[k], o(m), L(m))
        ELSE Along(Along(sp[k], o(k - 1), L(k - 1)), o(k), L(k))]
L1Offset(e, j) == (j - 1) * e.d - ((e.n - 1) * e.d) \div 2
L1Outline(e, j) == L1Side(e, L1Offset(e, j) - e.w) \o Reverse(L1Side(e, L1Offset(e, j) + e.w))
L1End(e) == LET qs == Quarters(e.q, e.turns, 1) IN Spine(e.p, qs, e.lens, 1)[Len(e.lens) + 1]
L1Dir(e) == LET qs == Quarters(e.q, e.turns, 1) u == Quarter(qs[Len(qs)]) IN <<u[1] * E6, u[2] * E6>>

\* the region of polygons as multiplicity at the middle of every cell between
\* the coordinates that occur (all edges along the axes)
Coords(gs, a) == SetToSortSeq(UNION {{p[a] : p \in SetOf(g)} : g \in SetOf(gs)}, <)
SmallG(g) == [i \in 1..Len(g) |-> <<g[i][1] \div 250, g[i][2] \div 250>>]
Small(gs) == [j \in 1..Len(gs) |-> SmallG(gs[j])]
Mids(s) == {(s[i] + s[i + 1]) \div 2 : i \in {i \in 1..(Len(s) - 1) : s[i + 1] - s[i] > 1}}
SameCover(f, g) ==
  LET a == Small(f) b == Small(g)
      xs == Mids(Coords(a \o b, 1)) ys == Mids(Coords(a \o b, 2))
      tot(gs, p) == Sum([j \in 1..Len(gs) |-> Wind(gs[j], p)])
  IN \A x \in xs, y \in ys : Abs(tot(a, <<x, y>>)) = Abs(tot(b, <<x, y>>))

L1Clause(e, o) ==
  LET want == [j \in 1..e.n |-> <<L1Outline(e, j), Cyc(e.ly, j), Cyc(e.dt, j)>>]
      per == Len(o.ps) \div e.n
  IN IF ~NearP(o.tt.p, L1End(e), T) THEN "L1Path: end"
     ELSE IF ~NearP(o.tt.e, L1Dir(e), 20) THEN "L1Path: direction"
     ELSE IF Len(o.ls) # Len(o.ps) \/ Len(o.ds) # Len(o.ps) THEN "L1Path: layers"
     ELSE IF e.mp > 0 /\ \E g \in SetOf(o.ps) : Len(g) > e.mp THEN "L1Path: more points than allowed"
     ELSE IF Len(o.ps) = e.n THEN IF SameBag(Tagged(o), want, LikeT) THEN "" ELSE "L1Path: outline"
     ELSE IF Len(o.ps) % e.n # 0 THEN "L1Path: number of pieces"
     ELSE LET tags == {<<want[j][2], want[j][3]>> : j \in 1..e.n} \cup {<<o.ls[i], o.ds[i]>> : i \in 1..Len(o.ps)}
              w(t) == LET s == SelectSeq(want, LAMBDA x : x[2] = t[1] /\ x[3] = t[2]) IN [i \in 1..Len(s) |-> s[i][1]]
              r(t) == LET s == SelectSeq(Tagged(o), LAMBDA x : x[2] = t[1] /\ x[3] = t[2]) IN [i \in 1..Len(s) |-> s[i][1]]
          IN IF \A t \in tags : SameCover(w(t), r(t)) THEN "" ELSE "L1Path: region of the pieces"

(* ---- circles, rings and their sections ----------------------------------- *)
\* offset d over radius r (20 units at most), in 1/10000
Norm(d, r) == (d * 1000) \div (r \div 10)
Sq(n) == n[1] * n[1] + n[2] * n[2]
One2 == 100000000
NormP(p, c, r) == <<Norm(p[1] - c[1], r[1]), Norm(p[2] - c[2], r[2])>>
OnCircle(q) == Abs(Sq(q) - One2) <= 60000
Mid(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>
\* the chord between two points of the unit circle stays within dl/10000 of it
Flat6(a, b, dl) == Sq(Mid(a, b)) >= (10000 - dl) * (10000 - dl) - 60000

\* lattice over the shape, in 1/10000 of the outer radii
Grid == {<<1741 * i + 187, 1741 * j - 311>> : i \in (-7)..6, j \in (-7)..7}
RoundClause(e, o) ==
  LET full == Abs(e.ang) >= 6283180
      ring == e.i # <<0, 0>>
      out(g) == [k \in 1..Len(g) |-> NormP(g[k], e.c, e.r)]
      inn(g) == [k \in 1..Len(g) |-> NormP(g[k], e.c, e.i)]
      rmax == Max2(e.r[1], e.r[2])
      few == \E g \in SetOf(o.ps) : Len(g) < 9
      dl == IF e.np > 0 THEN 400 ELSE Max2(2, ((IF few THEN 7 ELSE 2) * e.tol) \div (rmax \div 10000))
      P == [j \in 1..Len(o.ps) |-> out(o.ps[j])]
      Q == IF ring THEN [j \in 1..Len(o.ps) |-> inn(o.ps[j])] ELSE <<>>
      on(j, k) == OnCircle(P[j][k]) \/ (ring /\ OnCircle(Q[j][k])) \/ (~ring /\ NearP(o.ps[j][k], e.c, T))
      \* exact place of a lattice point, in 1/1000 of a unit
      real(q) == <<(q[1] * (e.r[1] \div 100)) \div 10000, (q[2] * (e.r[2] \div 100)) \div 10000>>
      nin(q) == <<(q[1] * (e.r[1] \div 1000)) \div (e.i[1] \div 1000), (q[2] * (e.r[2] \div 1000)) \div (e.i[2] \div 1000)>>
      cr(u, q) == (u[1] \div 100) * real(q)[2] - (u[2] \div 100) * real(q)[1]
      a == IF e.ang > 0 THEN e.e0 ELSE e.e1
      b == IF e.ang > 0 THEN e.e1 ELSE e.e0
      \* (angles of a half turn and more are the complement of the rest)
      wide == Abs(e.ang) > 3141592
      sect(q) == full \/ IF wide THEN ~(cr(b, q) > 0 /\ cr(a, q) < 0) ELSE cr(a, q) > 0 /\ cr(b, q) < 0
      far(v) == Abs(v) > 20 * 10000
      big(q) == Abs(q[1]) > 14000 \/ Abs(q[2]) > 14000
      gap(q) == big(q) \/ Abs(Sq(q) - One2) > 40000 + 2 * 10000 * (dl + 50)
      clear(q) == /\ gap(q)
                  /\ ring => gap(nin(q))
                  /\ full \/ (far(cr(a, q)) /\ far(cr(b, q)))
      want(q) == Sq(q) < One2 /\ (ring => (big(nin(q)) \/ Sq(nin(q)) > One2)) /\ sect(q)
      times(q) == Sum([j \in 1..Len(P) |-> Abs(Wind(P[j], q))])
  IN IF ~Finite(o.ps) \/ o.ps = <<>> THEN "Round: not finite"
     ELSE IF ~Uniform(o, e.ly, e.dt) THEN "Round: layers"
     ELSE IF e.mp > 0 /\ \E g \in SetOf(o.ps) : Len(g) > e.mp THEN "Round: more points than allowed"
     ELSE IF e.np > 0 /\ (Sum([j \in 1..Len(o.ps) |-> Len(o.ps[j])]) > e.np \/ (Len(o.ps) = 1 /\ Len(o.ps[1]) # e.np))
          THEN "Round: number of points"
     ELSE IF \E j \in 1..Len(o.ps) : \E k \in 1..Len(o.ps[j]) : ~on(j, k) THEN "Round: vertex off the curve"
     ELSE IF e.np = 0 /\ (e.mp = 0 \/ e.mp > 99) /\ \E j \in 1..Len(P) : \E k \in 1..Len(P[j]) :
               LET k1 == IF k = Len(P[j]) THEN 1 ELSE k + 1 IN
               \/ OnCircle(P[j][k]) /\ OnCircle(P[j][k1]) /\ Turning(P[j][k], P[j][k1], <<0, 0>>) # 0
                  /\ ~NearP(P[j][k], P[j][k1], 3) /\ ~Flat6(P[j][k], P[j][k1], dl)
          THEN "Round: chord beyond the tolerance"
     ELSE IF (e.np = 0 \/ e.np > 60) /\ (e.mp = 0 \/ e.mp > 99) /\ \E q \in Grid : clear(q) /\ times(q) # (IF want(q) THEN 1 ELSE 0) THEN "Round: region"
     ELSE ""

(* ---- rounding corners ------------------------------------------------------ *)
\* polygons with edges along the axes; a radius for every vertex.  Coordinates
\* in 1/1000 of a unit below.
Unit4(a, b) == LET s(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0 IN <<s(b[1] - a[1]), s(b[2] - a[2])>>
Len4(a, b) == Abs(b[1] - a[1]) + Abs(b[2] - a[2])
Pv(g, i) == g[IF i = 1 THEN Len(g) ELSE i - 1]
Corner(g, rs, i) ==
  LET u == Unit4(Pv(g, i), g[i]) v == Unit4(g[i], Nx(g, i))
      r == Min2(rs[i], Min2((49 * Len4(Pv(g, i), g[i])) \div 100, (49 * Len4(g[i], Nx(g, i))) \div 100))
      a == Along(g[i], -r, u)
      b == Along(g[i], r, v)
      straight == u = v
  IN [p |-> g[i], r |-> IF straight THEN 0 ELSE r, a |-> IF straight THEN g[i] ELSE a, b |-> IF straight THEN g[i] ELSE b,
      c |-> Along(a, r, v)]
Milli(g) == [i \in 1..Len(g) |-> <<(g[i][1] + 50) \div 100, (g[i][2] + 50) \div 100>>]
InSpan(x, s, t) == Min2(s, t) <= x /\ x <= Max2(s, t)
InBox(p, k) == InSpan(p[1], k.p[1], k.c[1]) /\ InSpan(p[2], k.p[2], k.c[2])
Off(p, k) == (p[1] - k.c[1]) * (p[1] - k.c[1]) + (p[2] - k.c[2]) * (p[2] - k.c[2])
OnCorner(v, k) == IF k.r = 0 THEN NearP(v, k.p, 1)
                  ELSE (InSpan(v[1], k.p[1], k.c[1]) \/ Near(v[1], k.p[1], 1) \/ Near(v[1], k.c[1], 1))
                    /\ (InSpan(v[2], k.p[2], k.c[2]) \/ Near(v[2], k.p[2], 1) \/ Near(v[2], k.c[2], 1))
                    /\ Abs(Off(v, k) - k.r * k.r) <= 4 * k.r + 4
FilletClause(e, a, b) ==
  LET n == Len(a.ps)
      \* (repeated vertices count once)
      kept(j) == SelectSeq([i \in 1..Len(a.ps[j]) |-> i], LAMBDA i : a.ps[j][i] # Pv(a.ps[j], i))
      A == [j \in 1..n |-> LET s == kept(j) g == Milli(a.ps[j]) IN [i \in 1..Len(s) |-> g[s[i]]]]
      Q == [j \in 1..n |-> LET s == kept(j) IN [i \in 1..Len(s) |-> e.rs[j][s[i]] \div 100]]
      K == [j \in 1..n |-> [i \in 1..Len(A[j]) |-> Corner(A[j], Q[j], i)]]
      B == [j \in 1..Len(b.ps) |-> Milli(b.ps[j])]
      bb == Around(A)
      step == Max2(700, (bb[3] - bb[1]) \div 11)
      lat == {<<bb[1] - 217 + step * i, bb[2] - 331 + step * i2>> : i \in 0..13, i2 \in 0..13}
             \cup UNION {{<<k.p[1] + ((k.c[1] - k.p[1]) * f) \div 10, k.p[2] + ((k.c[2] - k.p[2]) * f) \div 10>> : f \in {1, 2, 4, -1}}
                         : k \in UNION {SetOf(K[j]) : j \in 1..n}}
      out(k, p) == k.r > 0 /\ InBox(p, k) /\ Off(p, k) > k.r * k.r
      clear(p) == \A j \in 1..n : \A i \in 1..Len(A[j]) :
                    LET k == K[j][i] v == A[j][i] w == Nx(A[j], i) IN
                    /\ ~(InSpan(p[1], Min2(v[1], w[1]) - 30, Max2(v[1], w[1]) + 30) /\ InSpan(p[2], Min2(v[2], w[2]) - 30, Max2(v[2], w[2]) + 30))
                    /\ ~InBox(p, k) \/ Abs(Off(p, k) - k.r * k.r) > (k.r \div 50 + 30) * 2 * k.r
                    \* next to the side of a corner's box
                    /\ ~(Near(p[1], k.c[1], 20) \/ Near(p[2], k.c[2], 20))
      want(p) == Sum([j \in 1..n |-> LET w0 == Wind(A[j], p) # 0
                                         o == \E i \in 1..Len(A[j]) : out(K[j][i], p)
                                     IN IF w0 # o THEN 1 ELSE 0])
      times(p) == Cardinality({j \in 1..Len(B) : Wind(B[j], p) # 0})
      fract == e.mp > 4 /\ \E g \in SetOf(a.ps) : Len(g) * (e.ppc \div 4 + 2) > e.mp
      per == Max2(2, (e.ppc + 3) \div 4)
  IN IF ~Finite(b.ps) THEN "fillet: not finite"
     ELSE IF Len(b.ls) # Len(b.ps) \/ Len(b.ds) # Len(b.ps) THEN "fillet: layers"
     ELSE IF b.pr # a.pr THEN "fillet: properties"
     ELSE IF e.mp > 4 /\ \E g \in SetOf(b.ps) : Len(g) > e.mp THEN "fillet: more points than allowed"
     ELSE IF ~fract /\ (Len(b.ps) # n \/ b.ls # a.ls \/ b.ds # a.ds) THEN "fillet: polygons"
     ELSE IF ~fract /\ \E j \in 1..n : \E v \in SetOf(B[j]) : \A i \in 1..Len(A[j]) : ~OnCorner(v, K[j][i]) THEN "fillet: vertex off its corner"
     ELSE IF ~fract /\ \E j \in 1..n : \E i \in 1..Len(A[j]) :
               LET k == K[j][i] c == Cardinality({x \in 1..Len(B[j]) : OnCorner(B[j][x], k)}) IN
               \/ \A v \in SetOf(B[j]) : ~NearP(v, k.a, 1)
               \/ \A v \in SetOf(B[j]) : ~NearP(v, k.b, 1)
               \/ k.r > 4000 /\ c < per
          THEN "fillet: arc of a corner"
     ELSE IF e.ppc >= 32 /\ \E p \in lat : clear(p) /\ times(p) # want(p) THEN "fillet: region"
     ELSE ""

(* ---- the path builder ------------------------------------------------------ *)
\* paths j = 1..n lie (j-1)d - (n-1)d/2 to the right of the axis
Lat(d, n, j) == ((2 * (j - 1) - (n - 1)) * d) \div 2
Tags(ly, n) == [j \in 1..n |-> Cyc(ly, j)]
SegEnd(e, t) == Add(Add(t.p, Times6(e.len, e.e)), Times6(e.ax, RightOf(e.e)))
SegPolys(e, t, fw, fd) ==
  LET q == SegEnd(e, t) R == RightOf(e.e)
      poly(j) == LET a0 == Lat(t.d, t.n, j) a1 == Lat(fd, t.n, j) IN
        (IF t.w = 0 THEN <<Add(t.p, Times6(a0, R))>> ELSE <<Add(t.p, Times6(a0 - t.w, R)), Add(t.p, Times6(a0 + t.w, R))>>)
        \o (IF fw = 0 THEN <<Add(q, Times6(a1, R))>> ELSE <<Add(q, Times6(a1 + fw, R)), Add(q, Times6(a1 - fw, R))>>)
  IN [j \in 1..t.n |-> <<poly(j), Cyc(e.ly, j), Cyc(e.dt, j)>>]
Grown(a, b) == /\ Len(b.ps) >= Len(a.ps) /\ Len(b.ls) = Len(b.ps) /\ Len(b.ds) = Len(b.ps)
               /\ SubSeq(b.ps, 1, Len(a.ps)) = a.ps /\ SubSeq(b.ls, 1, Len(a.ps)) = a.ls /\ SubSeq(b.ds, 1, Len(a.ps)) = a.ds
Added(a, b) == [ps |-> SubSeq(b.ps, Len(a.ps) + 1, Len(b.ps)), ls |-> SubSeq(b.ls, Len(a.ps) + 1, Len(b.ps)),
                ds |-> SubSeq(b.ds, Len(a.ps) + 1, Len(b.ps))]
TurtleOk(t, b, q, dir, fw, fd, len) ==
  IF b.k # "path" \/ b.n # t.n THEN "number of paths"
  ELSE IF ~NearP(b.p, q, T) THEN "end position"
  ELSE IF ~NearP(b.e, dir, 20) THEN "direction"
  ELSE IF ~Near(b.w, fw, T) THEN "width"
  ELSE IF ~Near(b.d, fd, T) THEN "distance"
  ELSE IF ~Near(b.len, t.len + len, 2 * T) THEN "length"
  ELSE ""
\* e: o, len, e (direction), ax, fw, fd (NONE: as before), ly, dt, diag (length along the axis)
SegClause(e, a, b) ==
  LET t == a.tt
      fw == IF e.fw = NONE THEN t.w ELSE e.fw
      fd == IF e.fd = NONE THEN t.d ELSE e.fd
      nil == t.w = 0 /\ fw = 0
      c == TurtleOk(t, b.tt, SegEnd(e, t), e.e, fw, fd, IF nil THEN b.tt.len - t.len ELSE e.diag)
  IN IF c # "" THEN "segment: " \o c
     ELSE IF ~Grown(a, b) THEN "segment: earlier sections changed"
     ELSE IF ~Finite(b.ps) THEN "segment: not finite"
     ELSE IF b.pr # a.pr THEN "segment: properties"
     ELSE IF SameBag(Tagged(Added(a, b)), IF nil THEN <<>> ELSE SegPolys(e, t, fw, fd), LikeT) THEN "" ELSE "segment: outline"

\* e: r, e0, e1 (directions from the centre at both ends), ccw, ang (size of
\* the angle in 1/1000000), fw, fd, ly, dt, tol, np, mp; and for every new
\* vertex its fraction of the angle and its direction from the centre: us, es
ArcClause(e, a, b) ==
  LET t == a.tt
      fw == IF e.fw = NONE THEN t.w ELSE e.fw
      fd == IF e.fd = NONE THEN t.d ELSE e.fd
      c == Sub(t.p, Times6(e.r, e.e0))
      q == Add(c, Times6(e.r, e.e1))
      dir == IF e.ccw THEN LeftOf(e.e1) ELSE RightOf(e.e1)
      m == Added(a, b)
      k == Len(m.ps)
      nil == t.w = 0 /\ fw = 0
      pcs == k \div t.n
      side == IF e.ccw THEN 1 ELSE -1
      lin(x, y, u) == x + Mul6(y - x, u)
      \* the path a polygon belongs to is told by its place among the pieces
      mid(j, u) == e.r + side * lin(Lat(t.d, t.n, j), Lat(fd, t.n, j), u)
      wid(u) == lin(t.w, fw, u)
      at(j, s, u, d) == Add(c, Times6(mid(j, u) + s * wid(u), d))
      onside(j, s, x, v) == NearP(m.ps[x][v], at(j, s, e.us[x][v], e.es[x][v]), T + 4)
      tl == Max2(2 * e.tol, 30)
      \* polygon x is the outline of path j between two angles: its outer
      \* vertices in order and its inner ones in the opposite order
      sides(j, x) ==
        LET n == Len(m.ps[x])
            S == {h \in 1..(n - 1) : /\ \A v \in 1..h : onside(j, 1, x, v)
                                     /\ \A v \in (h + 1)..n : onside(j, -1, x, v)}
        IN \E h \in S :
             /\ \A v \in 1..(h - 1) : e.us[x][v] < e.us[x][v + 1]
             /\ \A v \in (h + 1)..(n - 1) : e.us[x][v] > e.us[x][v + 1]
             /\ h > 1 \/ wid(e.us[x][1]) = 0
      lo(x) == CHOOSE v \in SetOf(e.us[x]) : \A w \in SetOf(e.us[x]) : v <= w
      hi(x) == CHOOSE v \in SetOf(e.us[x]) : \A w \in SetOf(e.us[x]) : v >= w
      \* pieces of one path join end to end and cover the angle; both ends of
      \* a piece have both sides, or the tip where the width is zero
      ends(x, u) == LET z == Cardinality({v \in 1..Len(m.ps[x]) : Near(e.us[x][v], u, 3)}) IN
                    z = 2 \/ (z = 1 /\ Near(wid(u), 0, T))
      chord(x) == \A v \in 1..(Len(m.ps[x]) - 1) :
        LET p1 == m.ps[x][v] p2 == m.ps[x][v + 1] du == Abs(e.us[x][v] - e.us[x][v + 1])
            g == Mul6(e.ang, du) \div 1000   \* 1/1000 radians
            R == Max2(mid(1, e.us[x][v]), mid(t.n, e.us[x][v])) + wid(e.us[x][v])
        IN \* sagitta R g^2 / 8
           (R \div 1000) * ((g * g) \div 8) <= tl * 1000 + 1000
      xs == 1..k
      group(j) == {x \in xs : (x - 1) % t.n = j - 1}
      tagOk(j) == \A x \in group(j) : m.ls[x] = Cyc(e.ly, j) /\ m.ds[x] = Cyc(e.dt, j)
      joined(j) == LET L == {lo(x) : x \in group(j)} H == {hi(x) : x \in group(j)} IN
                   /\ \E v \in L : Near(v, 0, 3)
                   /\ \E v \in H : Near(v, E6, 3)
                   /\ \A v \in H : Near(v, E6, 3) \/ \E w \in L : Near(v, w, 3)
                   /\ Cardinality(L) = Cardinality(group(j)) /\ Cardinality(H) = Cardinality(group(j))
      tc == TurtleOk(t, b.tt, q, dir, fw, fd, IF nil THEN b.tt.len - t.len ELSE Mul6(e.r, e.ang))
  IN IF tc # "" THEN "arc: " \o tc
     ELSE IF ~Grown(a, b) THEN "arc: earlier sections changed"
     ELSE IF b.pr # a.pr THEN "arc: properties"
     ELSE IF nil THEN IF k = 0 THEN "" ELSE "arc: polygons without width"
     ELSE IF k = 0 \/ k % t.n # 0 THEN "arc: number of polygons"
     ELSE IF ~Finite(m.ps) THEN "arc: not finite"
     ELSE IF e.mp > 0 /\ \E g \in SetOf(m.ps) : Len(g) > e.mp THEN "arc: more points than allowed"
     ELSE IF \E j \in 1..t.n : ~tagOk(j) THEN "arc: layers"
     ELSE IF \E j \in 1..t.n : \E x \in group(j) : ~sides(j, x) THEN "arc: sides of a section"
     ELSE IF \E j \in 1..t.n : ~joined(j) THEN "arc: pieces"
     ELSE IF \E x \in xs : ~(ends(x, lo(x)) /\ ends(x, hi(x))) THEN "arc: ends of a piece"
     ELSE IF e.np = 0 /\ (e.mp = 0 \/ e.mp > 99) /\ \E x \in xs : ~chord(x) THEN "arc: chord beyond the tolerance"
     ELSE ""

\* sections along curves.  e: gs (control points of every curve), fws, fds
\* (<<>>: as before, <<v>>: changing linearly to v, <<a, b, c>>: function of the
\* parameter, for half widths and distances), nd (no derivative given), ne
\* (evaluations), tol, mp, ly, dt; and for every new polygon the curve it
\* belongs to, with the parameters of its vertices on the left and on the
\* right side: cert = [i, lt, rt, bad]
RECURSIVE FnsOf(_, _)
FnsOf(x, fs) == IF fs = <<>> THEN <<>>
                ELSE LET f == Head(fs) g == CASE Len(f) = 0 -> Cv!Const(x) [] Len(f) = 1 -> Cv!Line(x, f[1]) [] Len(f) = 3 -> f
                     IN <<g>> \o FnsOf(g[1] + g[2] + g[3], Tail(fs))
FinalOf(s) == s[Len(s)]
Dist(a, b) == LET v == Sub(b, a) IN IF Abs(v[1]) + Abs(v[2]) < 3 THEN 0 ELSE Cv!Dot6(v, Cv!Along(v))
CurveClause(e, a, b) ==
  LET t == a.tt
      W == FnsOf(t.w, e.fws)
      D == FnsOf(t.d, e.fds)
      S == [i \in 1..Len(e.gs) |-> [k |-> "bez", g |-> e.gs[i]]]
      m == Added(a, b)
      k == Len(m.ps)
      xs == 1..k
      z == Len(S)
      end(f) == f[1] + f[2] + f[3]
      reach(i, u) == Abs(Cv!Fn(W[i], u)) + ((t.n - 1) * Abs(Cv!Fn(D[i], u))) \div 2
      frame(i, u) == Cv!Frame(S[i], u)
      at(i, j, u, s) == Add(Cv!Spine(S[i], u), Times6(Lat(Cv!Fn(D[i], u), t.n, j) - s * Cv!Fn(W[i], u), RightOf(frame(i, u).t)))
      \* directions without derivatives are differences, one sided at the ends
      turning(i, u) == LET r == Cv!Rates(S[i], u) q == frame(i, u).q IN Abs(q) + Abs(r.q) \div 2 + Min2(20 * E6, Abs(Mul6(q, r.sp)))
      blur(i, u) == IF e.nd THEN turning(i, u) \div ((IF u < 20000 \/ u > 980000 THEN 2 ELSE 20) * (e.ne - 1)) ELSE 0
      loose(i, u) == 25 + Mul6(reach(i, u), blur(i, u) + 20)
      off(i, j, s, u, p) == ~NearP(p, at(i, j, u, s), loose(i, u))
      \* the curve alone decides where vertices lie
      bowed(i, u, v) == ~NearP(Cv!Spine(S[i], (u + v) \div 2), Mid(Cv!Spine(S[i], u), Cv!Spine(S[i], v)), e.tol + 20 + e.tol \div 50)
      side(i, j, s, us, vs) ==
        IF \E h \in 1..Len(us) : off(i, j, s, us[h], vs[h]) THEN "a vertex off its side"
        ELSE IF \E h \in 1..(Len(us) - 1) : us[h + 1] <= us[h] THEN "DRIVER: order"
        ELSE IF \E h \in 1..(Len(us) - 1) : (s = 1 /\ bowed(i, us[h], us[h + 1])) THEN "chord beyond the tolerance"
        ELSE ""
      lo(c) == Min2(Head(c.lt), Head(c.rt))
      hi(c) == Max2(FinalOf(c.lt), FinalOf(c.rt))
      nilAt(i, u) == Near(Cv!Fn(W[i], u), 0, 2)
      piece(x) ==
        LET c == e.cert[x] j == 1 + ((x - 1) % t.n) nl == Len(c.lt) nr == Len(c.rt) g == m.ps[x] IN
        IF c.bad THEN "a vertex off its side"
        ELSE IF nl = 0 \/ nr = 0 \/ nl + nr # Len(g) THEN "number of vertices"
        ELSE LET l == side(c.i, j, 1, c.lt, SubSeq(g, 1, nl))
                 r == side(c.i, j, -1, c.rt, Reverse(SubSeq(g, nl + 1, nl + nr)))
             IN IF l # "" THEN l ELSE IF r # "" THEN r
                ELSE IF Head(c.lt) # Head(c.rt) /\ ~nilAt(c.i, lo(c)) THEN "ends of a piece"
                ELSE IF FinalOf(c.lt) # FinalOf(c.rt) /\ ~nilAt(c.i, hi(c)) THEN "ends of a piece"
                ELSE IF m.ls[x] # Cyc(e.ly, j) \/ m.ds[x] # Cyc(e.dt, j) THEN "layers"
                ELSE ""
      \* the pieces of a path follow each other over all the curves
      follows(x) == LET c == e.cert[x] IN
        IF x <= t.n THEN c.i = 1 /\ lo(c) = 0
        ELSE LET y == e.cert[x - t.n] IN IF hi(y) = E6 THEN c.i = y.i + 1 /\ lo(c) = 0 ELSE c.i = y.i /\ Near(lo(c), hi(y), 2)
      last(x) == x + t.n <= k \/ (e.cert[x].i = z /\ hi(e.cert[x]) = E6)
      \* length of the spine through the parameters of the first path
      one == SelectSeq([x \in xs |-> x], LAMBDA x : (x % t.n) = (1 % t.n))
      us(c) == IF Len(c.lt) >= Len(c.rt) THEN (IF Head(c.lt) > lo(c) THEN <<lo(c)>> ELSE <<>>) \o c.lt \o (IF FinalOf(c.lt) < hi(c) THEN <<hi(c)>> ELSE <<>>)
               ELSE (IF Head(c.rt) > lo(c) THEN <<lo(c)>> ELSE <<>>) \o c.rt \o (IF FinalOf(c.rt) < hi(c) THEN <<hi(c)>> ELSE <<>>)
      run(c) == LET u == us(c) IN Sum([h \in 1..(Len(u) - 1) |-> Dist(Cv!Spine(S[c.i], u[h]), Cv!Spine(S[c.i], u[h + 1]))])
      long == Sum([h \in 1..Len(one) |-> run(e.cert[one[h]])])
      inter == IF e.f = "smooth" THEN Cv!InterClause(e, <<t.p>> \o (IF e.rel THEN [h \in 1..Len(e.ps) |-> Add(t.p, e.ps[h])] ELSE e.ps), e.gs) ELSE ""
  IN IF inter # "" THEN e.f \o ": " \o inter
     ELSE IF ~Grown(a, b) THEN e.f \o ": earlier sections changed"
     ELSE IF b.pr # a.pr THEN e.f \o ": properties"
     ELSE IF k = 0 \/ k % t.n # 0 THEN e.f \o ": number of polygons"
     ELSE IF ~Finite(m.ps) THEN e.f \o ": not finite"
     ELSE IF e.mp >= 4 /\ \E g \in SetOf(m.ps) : Len(g) > e.mp THEN e.f \o ": more points than allowed"
     ELSE IF \E x \in xs : piece(x) # "" THEN e.f \o ": " \o piece(CHOOSE x \in xs : piece(x) # "")
     ELSE IF \E x \in xs : ~follows(x) \/ ~last(x) THEN e.f \o ": pieces"
     ELSE IF b.tt.k # "path" \/ b.tt.n # t.n THEN e.f \o ": number of paths"
     ELSE IF ~NearP(b.tt.p, Cv!Spine(S[z], E6), T) THEN e.f \o ": end position"
     ELSE IF ~NearP(b.tt.e, frame(z, E6).t, 30 + blur(z, E6)) THEN e.f \o ": direction"
     ELSE IF ~Near(b.tt.w, end(W[z]), T) THEN e.f \o ": width"
     ELSE IF ~Near(b.tt.d, end(D[z]), T) THEN e.f \o ": distance"
     ELSE IF ~Near(b.tt.len, t.len + long, 3 * T + 2 * Len(us(e.cert[1]))) THEN e.f \o ": length"
     ELSE ""

(* ---- questions --------------------------------------------------------------- *)
AreaOf(o, S) == Sum([i \in 1..Len(o.ps) |-> IF <<o.ls[i], o.ds[i]>> \in S THEN Area2(o.ps[i]) ELSE 0])
AllTags(o) == {<<o.ls[i], o.ds[i]>> : i \in 1..Len(o.ps)}
\* twice the area, in 1/10000
RECURSIVE Points(_)
Points(gs) == IF gs = <<>> THEN 0 ELSE Len(Head(gs)) + Points(Tail(gs))
NearA(v, w, o) == Abs(v - w) <= 4 + Points(o.ps) * 6 + w \div 2000
AreaClause(e, o) ==
  IF e.by THEN
    IF {<<e.ret.v[i][1], e.ret.v[i][2]>> : i \in 1..Len(e.ret.v)} # AllTags(o) \/ Len(e.ret.v) # Cardinality(AllTags(o)) THEN "area: keys"
    ELSE IF \E i \in 1..Len(e.ret.v) : ~NearA(e.ret.v[i][3], AreaOf(o, {<<e.ret.v[i][1], e.ret.v[i][2]>>}), o) THEN "area by layer" ELSE ""
  ELSE IF NearA(e.ret.v[1][3], AreaOf(o, AllTags(o)), o) THEN "" ELSE "area"
BoxClause(e, o) ==
  LET w == Around(o.ps) IN
  IF Len(w) = Len(e.ret.v) /\ \A i \in 1..Len(w) : Near(w[i], e.ret.v[i], 1) THEN "" ELSE "bounding box"

NewClause(e, o) ==
  IF ~Finite(o.ps) THEN e.k \o ": not finite"
  ELSE IF o.pr # <<>> THEN e.k \o ": properties"
  ELSE CASE e.k = "set" -> IF ~Uniform(o, e.ly, e.dt) THEN "PolygonSet: layers"
                           ELSE IF SameBag(o.ps, e.ps, LikeG) THEN "" ELSE "PolygonSet: polygons"
    [] e.k = "polygon" -> IF ~Uniform(o, e.ly, e.dt) THEN "Polygon: layers"
                          ELSE IF Len(o.ps) = 1 /\ NearG(o.ps[1], e.ps[1], T) THEN "" ELSE "Polygon: points"
    [] e.k = "rect" -> IF ~Uniform(o, e.ly, e.dt) THEN "Rectangle: layers"
                       ELSE IF Len(o.ps) = 1 /\ NearG(o.ps[1], RectG(e.p, e.q), T) THEN "" ELSE "Rectangle: corners"
    [] e.k = "text" -> IF ~Uniform(o, e.ly, e.dt) THEN "Text: layers"
                       ELSE IF SameBag(o.ps, TextPolys(e), LikeG) THEN "" ELSE "Text: glyphs"
    [] e.k = "l1" -> L1Clause(e, o)
    [] e.k = "round" -> RoundClause(e, o)
    [] e.k = "path" -> IF o.ps # <<>> THEN "Path: starts empty"
                       ELSE LET c == TurtleOk([o.tt EXCEPT !.n = e.n, !.len = 0], o.tt, e.p, <<E6, 0>>, e.w, e.d, 0)
                            IN IF c = "" THEN "" ELSE "Path: " \o c
    [] e.k = "twin" -> ""

\* the objects before (st) and after an event; only the one it concerns changes
Changes(e) == IF e.op = "new" \/ e.op = "area" \/ e.op = "box" THEN 0 ELSE e.o
Clause(e, st) ==
  LET n == Len(st) ob == e.ret.objs IN
  IF e.ret.exc # "" THEN "outcome:" \o e.op \o ":" \o e.ret.exc
  ELSE IF Len(ob) # n + (IF e.op = "new" THEN 1 ELSE 0) THEN "DRIVER: objects"
  ELSE IF \E i \in 1..n : i # Changes(e) /\ ob[i] # st[i] THEN e.op \o ": another object changed"
  ELSE IF e.op # "new" /\ e.ret.same = FALSE THEN e.op \o ": does not return the object"
  ELSE CASE e.op = "new" -> IF e.k = "twin" THEN (IF ob[n + 1].ps = st[e.o].ps THEN "" ELSE "PolygonSet from polygons") ELSE NewClause(e, ob[n + 1])
    [] e.op = "move" -> MoveClause(e.m, st[e.o], ob[e.o])
    [] e.op = "fillet" -> FilletClause(e, st[e.o], ob[e.o])
    [] e.op = "seg" -> SegClause(e, st[e.o], ob[e.o])
    [] e.op = "arc" -> ArcClause(e, st[e.o], ob[e.o])
    [] e.op = "curve" -> CurveClause(e, st[e.o], ob[e.o])
    [] e.op = "area" -> AreaClause(e, st[e.o])
    [] e.op = "box" -> BoxClause(e, st[e.o])
    [] e.op = "tag" -> IF ob[e.o] = [st[e.o] EXCEPT !.ls = e.ls, !.ds = e.ds, !.pr = e.pr] THEN "" ELSE "DRIVER: tag"
    [] e.op = "spoil" -> "" \* an input array was changed by its owner; nothing else may change
    [] OTHER -> "DRIVER: unknown event"
=============================================================================
