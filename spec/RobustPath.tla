------------------------------ MODULE RobustPath ------------------------------
(***************************************************************************)
(* Robust paths: sections kept as functions.  State: the end point x, the  *)
(* current width w[k] and offset o[k] of every parallel path, and the      *)
(* sections: curves (control points, or circular arcs) with the functions  *)
(* of the widths and offsets, quadratic in the parameter, all of them as   *)
(* moved by the transformations since.                                     *)
(*                                                                         *)
(* The specification evaluates centres, directions and boundaries of every *)
(* section at any parameter; outlines are judged by certificate, which     *)
(* gives the parameter of every vertex.                                    *)
(***************************************************************************)
EXTENDS FlexPath

PI2 == 1570796
(* ---- elementary functions ------------------------------------------------ *)
\* a/b in 1/1000000, |b| below 2*10^8
RECURSIVE Long(_, _, _, _)
Long(q, r, b, n) == IF n = 0 THEN q ELSE Long(q * 10 + ((r * 10) \div b), (r * 10) % b, b, n - 1)
Div6(a, b) == LET s == IF (a < 0) = (b < 0) THEN 1 ELSE -1
              IN s * Long(Abs(a) \div Abs(b), Abs(a) % Abs(b), Abs(b), 6)
\* (cosine, sine) of an angle
SmallCis(r) ==
  LET r2 == Mul6(r, r) r3 == Mul6(r2, r) r4 == Mul6(r2, r2) r5 == Mul6(r4, r) r6 == Mul6(r4, r2) r7 == Mul6(r6, r) r8 == Mul6(r4, r4)
  IN <<E6 - (r2 \div 2) + (r4 \div 24) - (r6 \div 720) + (r8 \div 40320), r - (r3 \div 6) + (r5 \div 120) - (r7 \div 5040)>>
Cis(a) ==
  LET k == (2 * a + PI2) \div (2 * PI2)
      \* a right angle is 1570796.327
      c == SmallCis(a - k * PI2 - ((k * 327) \div 1000))
  IN CASE k % 4 = 0 -> c [] k % 4 = 1 -> LeftOf(c) [] k % 4 = 2 -> <<-c[1], -c[2]>> [] OTHER -> RightOf(c)
\* unit vector along v
RECURSIVE Halve(_)
Halve(v) == IF Abs(v[1]) > E6 \/ Abs(v[2]) > E6 THEN Halve(<<v[1] \div 2, v[2] \div 2>>) ELSE v
RECURSIVE Double(_)
Double(v) == IF Abs(v[1]) < 500000 /\ Abs(v[2]) < 500000 /\ v # <<0, 0>> THEN Double(<<v[1] * 2, v[2] * 2>>) ELSE v
RECURSIVE InvRoot(_, _, _)
InvRoot(s, y, n) == IF n = 0 THEN y ELSE InvRoot(s, (3 * y - Mul6(Mul6(s, y), Mul6(y, y))) \div 2, n - 1)
Along(v0) == LET v == Double(Halve(v0))
                 s == Mul6(v[1], v[1]) + Mul6(v[2], v[2])
             IN Times6(InvRoot(s, 1000000, 7), v)

(* ---- functions of the parameter ------------------------------------------- *)
Fn(f, u) == f[1] + Mul6(f[2], u) + Mul6(Mul6(f[3], u), u)
Df(f, u) == f[2] + 2 * Mul6(f[3], u)
Const(a) == <<a, 0, 0>>
Line(a, b) == <<a, b - a, 0>>
Plus(f, a) == <<f[1] + a, f[2], f[3]>>
Zoom(f, n, d) == [i \in 1..3 |-> Ratio(f[i], n, d)]
Neg(f) == [i \in 1..3 |-> -f[i]]

(* ---- sections ---------------------------------------------------------------- *)
Diff(g) == [i \in 1..(Len(g) - 1) |-> <<(Len(g) - 1) * (g[i + 1][1] - g[i][1]), (Len(g) - 1) * (g[i + 1][2] - g[i][2])>>]
Spine(s, u) == IF s.k = "bez" THEN At(s.g, u) ELSE Add(s.c, Times6(s.r, Rot6(s.e0, Cis(Mul6(s.ang, u)))))
\* direction, speed and rate of turning of the spine
Frame(s, u) ==
  IF s.k = "arc" THEN
    LET e == Rot6(s.e0, Cis(Mul6(s.ang, u)))
    IN [t |-> IF s.ang > 0 THEN LeftOf(e) ELSE RightOf(e), sp |-> Mul6(s.r, Abs(s.ang)), q |-> s.ang]
  ELSE LET d == At(Diff(s.g), u)
           t == Along(d)
           sp == Dot6(d, t)
       IN [t |-> t, sp |-> sp,
           q |-> IF Len(s.g) = 2 THEN 0 ELSE LET a == At(Diff(Diff(s.g)), u) IN Div6(Cross6(t, a), sp)]
\* t is a direction, so this is t x a
\* offsets count to the right
Centre(s, k, u) == Add(Spine(s, u), Times6(Fn(s.o[k], u), RightOf(Frame(s, u).t)))
\* derivative of the centre
Veloc(s, k, u) ==
  LET f == Frame(s, u) IN
  Add(Times6(f.sp + Mul6(Fn(s.o[k], u), f.q), f.t), Times6(Df(s.o[k], u), RightOf(f.t)))
Head1(s, k, u) == Along(Veloc(s, k, u))
Wide(s, k, u) == Fn(s.w[k], u)
\* a: 1 left boundary, -1 right boundary, 0 centre
Bound(s, k, u, a) ==
  IF a = 0 THEN Centre(s, k, u)
  ELSE Add(Centre(s, k, u), Times6(a * (Wide(s, k, u) \div 2), LeftOf(Head1(s, k, u))))
\* rates: of the speed of the spine (relative), and of its turning
Rates(s, u) ==
  IF s.k = "arc" \/ Len(s.g) = 2 THEN [sp |-> 0, q |-> 0]
  ELSE LET f == Frame(s, u)
           a == At(Diff(Diff(s.g)), u)
           z == Div6(Dot6(a, f.t), f.sp)
       IN [sp |-> z,
           q |-> (IF Len(s.g) = 3 THEN 0 ELSE Div6(Cross6(f.t, At(Diff(Diff(Diff(s.g))), u)), f.sp)) - 2 * Mul6(f.q, z)]
\* direction of a boundary
Tangent(s, k, u, a) ==
  IF a = 0 \/ (s.k = "bez" /\ Len(s.g) = 2 /\ s.o[k][3] = 0 /\ s.w[k][2] = 0 /\ s.w[k][3] = 0) THEN Head1(s, k, u)
  ELSE LET fr == Frame(s, u) rt == Rates(s, u)
           o == Fn(s.o[k], u) d == Df(s.o[k], u) dd == 2 * s.o[k][3]
           f == fr.sp + Mul6(o, fr.q)
           df == Mul6(fr.sp, rt.sp) + Mul6(d, fr.q) + Mul6(o, rt.q)
           v == Veloc(s, k, u) h == Along(v) n == Dot6(v, h)
           \* how fast the centre turns
           phi == fr.q + Mul6(Div6(d, n), Div6(df, n)) - Mul6(Div6(f, n), Div6(dd, n))
           w == Wide(s, k, u) dw == Df(s.w[k], u)
       IN Along(Add(Times6(n - ((a * Mul6(w, phi)) \div 2), h), Times6((a * dw) \div 2, LeftOf(h))))
\* directions at the ends are known to half a step of the evaluations
Ends(st, u) == (u * st.me) \div E6 = 0 \/ ((E6 - u) * st.me) \div E6 = 0
Simple(s, k) == s.k = "bez" /\ Len(s.g) = 2 /\ s.o[k][3] = 0
\* where offsets change along curves given without derivative, one sided
\* differences leave an error in the direction at the ends
Askew(st, s, k, u) ==
  IF s.nd /\ Ends(st, u) THEN
    LET f == Frame(s, u)
    IN Mul6(Min2(E6, Div6(Abs(Df(s.o[k], u)), Max2(1, f.sp))), Min2(E6, Div6(Abs(Mul6(Fn(s.o[k], u), f.q)), Max2(1, f.sp))))
  ELSE 0
Loose(st, s, k, u) ==
  LET f == Frame(s, u)
      rate == Abs(f.q) + Div6(Abs(Df(s.o[k], u)) + 2 * Abs(s.o[k][3]), Max2(1, f.sp)) + Abs(s.w[k][2]) \div 4
      size == Abs(Fn(s.o[k], u)) + Abs(Wide(s, k, u))
  IN 40 + (IF Simple(s, k) THEN 0
           ELSE Mul6(Min2(size, 2000000), Min2(rate + Abs(f.q) \div 2, 30000000)) \div ((IF Ends(st, u) THEN 1 ELSE 50) * st.me))
     + Mul6(Wide(s, k, u), Askew(st, s, k, u))
\* and in the directions of tapered boundaries
Skew(st, s, k, u, a) ==
  IF Simple(s, k) \/ ~Ends(st, u) THEN 0
  ELSE LET f == Frame(s, u)
           t == (a * Dot6(Tangent(s, k, u, a), LeftOf(Head1(s, k, u))))
           n == Dot6(Veloc(s, k, u), Head1(s, k, u))
           turn == Mul6(Wide(s, k, u), Abs(f.q) + 2 * Abs(Div6(s.o[k][3], Max2(1, f.sp)))) + Abs(Mul6(Fn(s.o[k], u), f.q))
       IN Mul6(Abs(t), Min2(E6, Div6(turn, Max2(1, n)))) + Askew(st, s, k, u)

(* ---- construction -------------------------------------------------------------- *)
RNew(e) ==
  LET n == IF e.wl THEN Len(e.w) ELSE IF e.ol THEN Len(e.o) ELSE 1 IN
  [x |-> e.p, n |-> n, w |-> [k \in 1..n |-> IF e.wl THEN e.w[k] ELSE e.w[1]],
   o |-> [k \in 1..n |-> IF e.ol THEN e.o[k] ELSE IF e.wl THEN ((2 * k - n - 1) * e.o[1]) \div 2 ELSE e.o[1]],
   secs |-> <<>>, tol |-> e.tol, me |-> e.me, mp |-> e.mp, gp |-> e.gp, wt |-> e.wt,
   ends |-> [k \in 1..n |-> Num1(e.ends, k)], ly |-> [k \in 1..n |-> Num1(e.ly, k)], dt |-> [k \in 1..n |-> Num1(e.dt, k)]]
\* functions given by the arguments: absent, a number, one function, or a
\* list of numbers and functions
WFun(st, e, w, k) ==
  IF st.gp \/ e.wk = "none" THEN Const(w[k])
  ELSE CASE e.wk = "num" -> Line(w[k], e.w[1][1])
         [] e.wk = "fun" -> e.w[1]
         [] e.wk = "list" -> IF Len(e.w[k]) = 1 THEN Line(w[k], e.w[k][1]) ELSE e.w[k]
OFun(st, e, o, k) ==
  CASE e.ok = "none" -> Const(o[k])
    [] e.ok = "num" -> Line(o[k], o[k] + e.o[1][1])
    [] e.ok = "fun" -> Plus(e.o[1], o[k])
    [] e.ok = "list" -> IF Len(e.o[k]) = 1 THEN Line(o[k], e.o[k][1]) ELSE e.o[k]
RelTo(st, e) == IF e.rel THEN Shift(st.x, e.ps) ELSE e.ps
\* a section with its functions
Sect(st, e, w, o, curve) ==
  LET f == [w |-> [k \in 1..st.n |-> WFun(st, e, w, k)], o |-> [k \in 1..st.n |-> OFun(st, e, o, k)]]
  IN IF curve.k = "bez" THEN [k |-> "bez", nd |-> e.f = "parametric", g |-> curve.g, w |-> f.w, o |-> f.o]
     ELSE [k |-> "arc", nd |-> FALSE, c |-> curve.c, r |-> curve.r, e0 |-> curve.e0, ang |-> curve.ang, w |-> f.w, o |-> f.o]
AtEnd(fs) == [k \in 1..Len(fs) |-> fs[k][1] + fs[k][2] + fs[k][3]]
\* curves of the interpolations follow each other, with the same arguments
RECURSIVE SectsOf(_, _, _, _, _)
SectsOf(st, e, w, o, curves) ==
  IF curves = <<>> THEN <<>>
  ELSE LET s == Sect(st, e, w, o, Head(curves)) IN <<s>> \o SectsOf(st, e, AtEnd(s.w), AtEnd(s.o), Tail(curves))
Bez(g) == [k |-> "bez", g |-> g]
Curves(st, e) ==
  CASE e.f \in {"segment", "bezier"} -> <<Bez(<<st.x>> \o RelTo(st, e))>>
    [] e.f = "parametric" -> <<Bez(IF e.rel THEN Shift(st.x, e.ps) ELSE e.ps)>>
    [] e.f \in {"arc", "turn"} -> <<[k |-> "arc", c |-> Sub(st.x, Times6(e.r, e.e0)), r |-> e.r, e0 |-> e.e0, ang |-> e.ang]>>
    [] e.f = "smooth" -> [i \in 1..Len(e.gs) |-> Bez(e.gs[i])]
Sections(st, e) == SectsOf(st, e, st.w, st.o, Curves(st, e))
Extend(st, e) ==
  LET s == Sections(st, e) z == s[Len(s)] IN
  [st EXCEPT !.secs = @ \o s, !.x = Spine(z, E6), !.w = AtEnd(z.w), !.o = AtEnd(z.o)]
\* turns start in the mean direction of the parallel paths
TurnsOk(st, e) ==
  LET s == st.secs[Len(st.secs)]
      f == IF e.ang > 0 THEN LeftOf(e.e0) ELSE RightOf(e.e0)
      h(k) == Head1(s, k, E6)
      slack(k) == 100 + Loose(st, s, k, E6) * 10
  IN /\ \A k \in 1..st.n : Dot6(f, h(k)) > 0
     /\ \E k \in 1..st.n : Cross6(f, h(k)) >= -slack(k)
     /\ \E k \in 1..st.n : Cross6(f, h(k)) <= slack(k)
RowNear(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], 15)
\* what can be seen: end point, widths, offsets, number of sections
SeenClause(s, r, d) ==
  IF r.n # s.n THEN "number of parallel paths"
  ELSE IF r.len # Len(s.secs) THEN "number of sections"
  ELSE IF ~NearP(r.x, s.x, d) THEN "end point"
  ELSE IF ~RowNear([k \in 1..Len(r.w) |-> Abs(r.w[k])], s.w) THEN "widths"
  ELSE IF ~RowNear(r.o, s.o) THEN "offsets"
  ELSE ""
RSectionClause(st, e, r) ==
  LET inter == IF e.f = "smooth" THEN InterClause(e, <<st.x>> \o RelTo(st, e), e.gs) ELSE ""
  IN IF e.f = "turn" /\ ~TurnsOk(st, e) THEN "DRIVER: direction of the turn"
     ELSE IF inter # "" THEN inter
     ELSE SeenClause(Extend(st, e), r, 40)

(* ---- transformations --------------------------------------------------------------- *)
\* of directions
MovedE(m, e) ==
  CASE m.f = "translate" -> e
    [] m.f = "rotate" -> Rot6(e, m.e)
    [] m.f = "scale" -> IF m.s[1] < 0 THEN <<-e[1], -e[2]>> ELSE e
    [] m.f = "transform" -> LET x == IF m.x THEN FlipX(e) ELSE e IN IF m.e = <<>> THEN x ELSE Rot6(x, m.e)
MovedF(m, f) == Zoom(f, Factor(m)[1], Factor(m)[2])
MovedS(m, st, s) ==
  LET w == [k \in 1..st.n |-> IF Kept(st) THEN s.w[k] ELSE MovedF(m, s.w[k])]
      \* the left becomes the right
      o == [k \in 1..st.n |-> LET f == MovedF(m, s.o[k]) IN IF Reflects(m) THEN Neg(f) ELSE f]
  IN IF s.k = "bez" THEN [k |-> "bez", nd |-> s.nd, g |-> [i \in 1..Len(s.g) |-> MovedP(m, s.g[i])], w |-> w, o |-> o]
     ELSE [k |-> "arc", nd |-> FALSE, c |-> MovedP(m, s.c), r |-> Sized(m, s.r), e0 |-> MovedE(m, s.e0), ang |-> IF Reflects(m) THEN -s.ang ELSE s.ang, w |-> w, o |-> o]
RMoved(m, st) ==
  LET size(v) == Sized(m, v) IN
  [st EXCEPT !.x = MovedP(m, @), !.secs = [i \in 1..Len(@) |-> MovedS(m, st, @[i])],
             !.w = [k \in 1..st.n |-> IF Kept(st) THEN @[k] ELSE size(@[k])],
             !.o = [k \in 1..st.n |-> IF Reflects(m) THEN -size(@[k]) ELSE size(@[k])],
             !.ends = [k \in 1..Len(@) |-> IF @[k].k = "custom" THEN [@[k] EXCEPT !.a = size(@), !.b = size(@)] ELSE @[k]]]

(* ---- boundaries by certificate --------------------------------------------------------- *)
\* an item for every vertex: <<i, u>> on section i; <<i, u, v>> at the end
\* of section i (at u) and the beginning of section i + 1 (at v); <<i>>:
\* where sections i and i + 1 meet, both being prolonged
VertexOk(st, k, a, it, p) ==
  LET s == st.secs[it[1]] IN
  CASE Len(it) = 2 -> NearP(p, Bound(s, k, it[2], a), Loose(st, s, k, it[2]))
    [] Len(it) = 3 -> LET z == st.secs[it[1] + 1] IN
         /\ it[2] > 0 /\ it[3] < E6
         /\ NearP(p, Bound(s, k, it[2], a), st.tol + Loose(st, s, k, it[2]))
         /\ NearP(p, Bound(z, k, it[3], a), st.tol + Loose(st, z, k, it[3]))
    [] Len(it) = 1 -> LET z == st.secs[it[1] + 1]
                          x == Bound(s, k, E6, a) y == Bound(z, k, 0, a)
                          d == Tangent(s, k, E6, a) e == Tangent(z, k, 0, a)
                          far == 1 + ((Len1(Sub(p, x)) + Len1(Sub(p, y))) \div 10000)
                          slack == (Loose(st, s, k, E6) + Loose(st, z, k, 0)) * (2 + far \div 5)
                                   + far * ((Skew(st, s, k, E6, a) + Skew(st, z, k, 0, a)) \div 100)
                      IN /\ OnLine(p, x, d, slack) /\ OnLine(p, y, e, slack)
                         /\ Dot6(Sub(p, x), d) >= -slack /\ Dot6(Sub(y, p), e) >= -slack
\* the next vertex along the boundary
StepOk(st, k, a, i1, p1, i2, p2) ==
  LET \* where the next piece starts
      sec == IF Len(i1) = 3 THEN i1[1] + 1 ELSE i1[1]
      from == IF Len(i1) = 3 THEN i1[3] ELSE IF Len(i1) = 2 THEN i1[2] ELSE 0
  IN IF Len(i1) = 1 THEN i2 = <<i1[1] + 1, 0>>
     ELSE IF Len(i2) = 1 THEN i2[1] = sec /\ from = E6
     ELSE /\ i2[1] = sec /\ i2[2] > from
          /\ LET s == st.secs[sec] m == (from + i2[2]) \div 2 IN
             Within(Bound(s, k, m, a), Half(p1, p2), 2 * st.tol + 60 + Loose(st, s, k, from) + Loose(st, s, k, i2[2]) + Loose(st, s, k, m))
SideClause(st, k, a, items, ps) ==
  LET n == Len(ps) IN
  IF Len(items) # n \/ n < 2 THEN "does not follow its sections"
  ELSE IF items[1] # <<1, 0>> \/ items[n] # <<Len(st.secs), E6>> THEN "ends"
  ELSE IF \E i \in 1..n : ~VertexOk(st, k, a, items[i], ps[i]) THEN "vertex off the boundary"
  ELSE IF \E i \in 1..(n - 1) : ~StepOk(st, k, a, items[i], ps[i], items[i + 1], ps[i + 1]) THEN "chord beyond the tolerance"
  ELSE ""
\* arcs of round ends
RoundOk(c, r, side, vs, tol, d) ==
  /\ \A i \in 1..Len(vs) : OnCircle(vs[i], c, r, 20 + d)
  /\ \A i \in 1..(Len(vs) - 1) :
       /\ side * Cross6(Sub(vs[i], c), Sub(vs[i + 1], c)) >= -Mul6(r, 2 * d)
       /\ LET q == Max2(0, r - (5 * tol) \div 2 - 20 - d) IN Dist6(MidP(vs[i], vs[i + 1]), c) + 5 >= Mul6(q, q)
\* ends: vertices from the left side to the right
CapClause(st, k, atEnd, vs) ==
  LET m == Len(st.secs)
      s == st.secs[IF atEnd THEN m ELSE 1]
      u == IF atEnd THEN E6 ELSE 0
      c == Centre(s, k, u) l == Bound(s, k, u, 1) r == Bound(s, k, u, -1)
      h == Head1(s, k, u)
      out == IF atEnd THEN h ELSE <<-h[1], -h[2]>>
      half == Wide(s, k, u) \div 2
      e == st.ends[k]
      d == IF e.k = "extended" THEN half ELSE IF atEnd THEN e.b ELSE e.a
      slack == TP + Loose(st, s, k, u) + Mul6(Min2(2000000, d), 10 * Loose(st, s, k, u) + Askew(st, s, k, u))
  IN CASE e.k = "flush" -> vs = <<>>
       [] e.k \in {"extended", "custom"} -> NearS(vs, <<Add(l, Times6(d, out)), Add(r, Times6(d, out))>>, slack)
       [] e.k = "round" -> RoundOk(c, half, IF atEnd THEN -1 ELSE 1, <<l>> \o vs \o <<r>>, st.tol, Loose(st, s, k, u))
       [] e.k = "smooth" -> /\ vs # <<>> /\ FreeOk(Free(l, r), <<l>> \o vs \o <<r>>)
                            /\ \A i \in 1..Len(vs) : Dot6(Sub(vs[i], c), out) >= -slack
\* c: rev: listed the other way round; at: number of the first vertex of
\* the left side; lt, rt: items of both sides; nb, ne: vertices of the ends
ROutline(st, k, c, g) ==
  LET v == From(IF c.rev THEN Reverse(g) ELSE g, c.at)
      nl == Len(c.lt) nr == Len(c.rt)
  IN IF c.bad THEN "does not follow its sections"
     ELSE IF Len(v) # nl + nr + c.nb + c.ne THEN "number of vertices"
     ELSE LET l == SideClause(st, k, 1, c.lt, SubSeq(v, 1, nl))
              r == SideClause(st, k, -1, c.rt, Reverse(SubSeq(v, nl + c.ne + 1, nl + c.ne + nr)))
          IN IF l # "" THEN l ELSE IF r # "" THEN r
             ELSE IF ~CapClause(st, k, TRUE, SubSeq(v, nl + 1, nl + c.ne)) THEN "last end (" \o st.ends[k].k \o ")"
             ELSE IF ~CapClause(st, k, FALSE, Reverse(SubSeq(v, nl + c.ne + nr + 1, Len(v)))) THEN "first end (" \o st.ends[k].k \o ")"
             ELSE ""
\* sections that continue each other never warn
Continuous(st) == \A i \in 1..(Len(st.secs) - 1) : \A k \in 1..st.n :
  LET s == st.secs[i] z == st.secs[i + 1] IN
  /\ Fn(s.o[k], E6) = Fn(z.o[k], 0) /\ Fn(s.w[k], E6) = Fn(z.w[k], 0)
  /\ Abs(Cross6(Frame(s, E6).t, Frame(z, 0).t)) < 100 /\ Dot6(Frame(s, E6).t, Frame(z, 0).t) > 0
  /\ Abs(Cross6(Head1(s, k, E6), Head1(z, k, 0))) < 100
RAskClause(st, e) ==
  LET r == e.ret
      fract == st.mp > 4 /\ \E g \in SetOf(r.twin) : Len(g) > st.mp
      whole == IF fract THEN r.twin ELSE r.ps
      ord == Order(st)
      sizes == IF Small(r.ps) THEN Sum([i \in 1..Len(r.ps) |-> Area2(r.ps[i])]) ELSE NONE
      keys == {KeyOf(st, k) : k \in 1..st.n}
      clause(i) == ROutline(st, ord[i], e.cert[i], whole[i])
  IN IF r.warn THEN IF Continuous(st) THEN "warns of joins that are continuous" ELSE ""
     ELSE IF ~Finite(r.ps) THEN "outline not finite"
     ELSE IF st.mp > 4 /\ \E g \in SetOf(r.ps) : Len(g) > st.mp THEN "more vertices than allowed"
     ELSE IF {<<b.ly, b.dt>> : b \in SetOf(r.by)} # keys \/ Len(r.by) # Cardinality(keys) THEN "layers and datatypes"
     ELSE IF ~SameBag(Flat([i \in 1..Len(r.by) |-> r.by[i].ps]), r.ps, LAMBDA f, g : NearS(f, g, 1)) THEN "polygons by layer and datatype"
     ELSE IF ~SameBag([i \in 1..Len(r.set) |-> r.set[i].g], r.ps, LAMBDA f, g : NearS(f, g, 1)) THEN "polygon set"
     ELSE IF \E b \in SetOf(r.by) : ~SameBag(b.ps, LET s == SelectSeq(r.set, LAMBDA x : x.ly = b.ly /\ x.dt = b.dt) IN [i \in 1..Len(s) |-> s[i].g], LAMBDA f, g : NearS(f, g, 1)) THEN "layers of the polygon set"
     ELSE IF sizes < 30000000 /\ Abs(r.area - sizes) > 60 + (sizes \div 20000) THEN "area"
     ELSE IF Len(whole) # st.n THEN "number of outlines"
     ELSE IF \E i \in 1..st.n : clause(i) # "" THEN "outline: " \o clause(CHOOSE i \in 1..st.n : clause(i) # "")
     ELSE IF ~fract /\ \E b \in SetOf(r.by) : ~SameBag(b.ps, Flat([i \in 1..st.n |-> IF KeyOf(st, ord[i]) = <<b.ly, b.dt>> THEN <<whole[i]>> ELSE <<>>]), LAMBDA f, g : NearS(f, g, 1)) THEN "outline on another layer"
     ELSE IF fract /\ ~SameRegion(r.twin, r.ps) THEN "region of the pieces"
     ELSE ""

(* ---- GDSII elements ------------------------------------------------------------------------ *)
RGdsClause(st, e) ==
  LET els == e.ret.els IN
  IF e.ret.warn THEN IF Continuous(st) THEN "warns of joins that are continuous" ELSE ""
  ELSE IF Len(els) # (IF st.secs = <<>> THEN 0 ELSE st.n) THEN "number of elements"
  ELSE IF els = <<>> THEN ""
  ELSE IF \E k \in 1..st.n : els[k].ly # st.ly[k] \/ els[k].dt # st.dt[k] THEN "element: layer or datatype"
  ELSE IF \E k \in 1..st.n : els[k].type # TypeOf(st.ends[k]) THEN "element: type of ends"
  ELSE IF \E k \in 1..st.n : ~Near(els[k].width, IF st.wt THEN st.w[k] ELSE -st.w[k], 12) THEN "element: width"
  ELSE IF \E k \in 1..st.n : st.ends[k].k = "custom" /\ ~(Near(els[k].a, st.ends[k].a, 12) /\ Near(els[k].b, st.ends[k].b, 12)) THEN "element: extensions"
  ELSE LET clause(k) == IF e.cert[k].bad THEN "does not follow its sections" ELSE SideClause(st, k, 0, e.cert[k].lt, els[k].ps)
       IN IF \E k \in 1..st.n : clause(k) # "" THEN "element: " \o clause(CHOOSE k \in 1..st.n : clause(k) # "") ELSE ""

(* ---- positions, directions and widths along the path ---------------------------------------- *)
\* at the ends, one sided differences leave the size of the gradient open;
\* at joins, either section is meant unless a side is given
RValClause(st, e) ==
  LET secs == IF e.u = 0 /\ e.i > 1 /\ e.side # "+" THEN IF e.side = "-" THEN {<<e.i - 1, E6>>} ELSE {<<e.i, 0>>, <<e.i - 1, E6>>} ELSE {<<e.i, e.u>>}
      ok(x, k) ==
        LET s == st.secs[x[1]] u == x[2] v == e.ret.v[k] IN
        CASE e.what = "at" -> NearP(v, Bound(s, k, u, -e.arm), Loose(st, s, k, u))
          [] e.what = "width" -> Near(v[1], Wide(s, k, u), 20 + Loose(st, s, k, u) \div 4)
          [] e.what = "grad" -> LET d == Tangent(s, k, u, -e.arm) g == Halve(v)
                                    slack == 400 + Loose(st, s, k, u) * 20 + Skew(st, s, k, u, -e.arm)
                                IN /\ Abs(Cross6(Along(g), d)) <= slack /\ Dot6(g, d) > 0
                                   /\ (e.arm = 0 /\ u > 20000 /\ u < 980000) => LET n == Dot6(Veloc(s, k, u), d) IN Near(Dot6(v, d), n, 200 + Mul6(Abs(n), 5000 + 3 * slack))
  IN IF Len(e.ret.v) # st.n THEN "number of parallel paths"
     ELSE IF \E x \in secs : \A k \in 1..st.n : ok(x, k) THEN "" ELSE e.what

(* ---- histories -------------------------------------------------------------------------------- *)
RClause(st, e) ==
  LET r == e.ret IN
  IF r.exc # "" THEN "outcome:" \o e.f \o ":" \o r.exc
  ELSE IF ~r.same THEN e.f \o ": does not return the path"
  ELSE IF ~r.kept THEN e.f \o ": changes its arguments"
  ELSE LET seen == IF e.op \in {"ask", "gds", "val"} THEN SeenClause(st, r, 40) ELSE ""
           c == IF seen # "" THEN seen
                ELSE CASE e.op = "new" -> SeenClause(RNew(e), r, 12)
                  [] e.op = "section" -> RSectionClause(st, e, r)
                  [] e.op = "move" -> SeenClause(RMoved(e, st), r, 60)
                  [] e.op = "ask" -> IF st.secs = <<>> THEN IF r.ps = <<>> /\ r.by = <<>> /\ r.set = <<>> /\ r.area = 0 THEN "" ELSE "outline without sections"
                                     ELSE RAskClause(st, e)
                  [] e.op = "gds" -> RGdsClause(st, e)
                  [] e.op = "val" -> RValClause(st, e)
       IN IF c = "" THEN "" ELSE e.f \o ": " \o c
RNext(st, e) ==
  CASE e.op = "new" -> RNew(e)
    [] e.op = "section" -> [Extend(st, e) EXCEPT !.x = e.ret.x]
    [] e.op = "move" -> [RMoved(e, st) EXCEPT !.x = e.ret.x]
    [] OTHER -> st
=============================================================================
