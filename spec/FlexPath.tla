------------------------------- MODULE FlexPath -------------------------------
(***************************************************************************)
(* Flexible paths.  State: the spine P, for every point of it the widths W *)
(* and the offsets O of the parallel paths, and what was chosen at         *)
(* creation: corners, ends, bend radii, layers, datatypes, tolerance, the  *)
(* largest number of vertices.                                             *)
(*                                                                         *)
(* Outlines are judged by certificate: the driver supplies, for every      *)
(* parallel path, unit directions, centre points and the intersections of  *)
(* side lines; the specification verifies them against the state, builds   *)
(* the outline from them and compares.                                     *)
(***************************************************************************)
EXTENDS Curve

Dot6(p, e) == Mul6(p[1], e[1]) + Mul6(p[2], e[2])
Cross6(p, e) == Mul6(p[1], e[2]) - Mul6(p[2], e[1])
OnLine(x, a, e, d) == Abs(Cross6(Sub(x, a), e)) <= d
UnitOf(e, v) == /\ Abs(Mul6(e[1], e[1]) + Mul6(e[2], e[2]) - E6) <= 30
                /\ Abs(Cross6(v, e)) <= 24 /\ Dot6(v, e) > 0
MidP(p, q) == <<(p[1] + q[1]) \div 2, (p[2] + q[2]) \div 2>>
Num1(v, k) == v[((k - 1) % Len(v)) + 1]

(* ---- transformations ------------------------------------------------------ *)
Ratio2(p, s) == <<Ratio(p[1], s[1], s[2]), Ratio(p[2], s[1], s[2])>>
FlipX(p) == <<p[1], -p[2]>>
\* references: scaling, array steps, reflection, rotation, translation
Refer(m, p) ==
  LET s == IF m.s = <<>> THEN p ELSE Ratio2(p, m.s)
      a == IF m.at = <<>> THEN s ELSE Add(s, m.at)
      x == IF m.x THEN FlipX(a) ELSE a
      r == IF m.e = <<>> THEN x ELSE Rot6(x, m.e)
  IN IF m.t = <<>> THEN r ELSE Add(r, m.t)
MovedP(m, p) ==
  CASE m.f = "translate" -> Add(p, <<m.x, m.y>>)
    [] m.f = "rotate" -> Add(m.c, Rot6(Sub(p, m.c), m.e))
    [] m.f = "scale" -> Add(m.c, Ratio2(Sub(p, m.c), m.s))
    [] m.f = "transform" -> Refer(m, p)
Factor(m) == IF m.f \in {"scale", "transform"} /\ m.s # <<>> THEN <<Abs(m.s[1]), m.s[2]>> ELSE <<1, 1>>
Sized(m, v) == Ratio(v, Factor(m)[1], Factor(m)[2])
Reflects(m) == m.f = "transform" /\ m.x
Kept(st) == st.gp /\ ~st.wt
Moved(m, st) ==
  [st EXCEPT !.rad = [k \in 1..Len(@) |-> Sized(m, @[k])],
             !.ends = [k \in 1..Len(@) |-> IF @[k].k = "custom" THEN [@[k] EXCEPT !.a = Sized(m, @), !.b = Sized(m, @)] ELSE @[k]]]
RowsNear(a, b, d) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A k \in 1..Len(a[i]) : Near(a[i][k], b[i][k], d)
MoveClause(m, st, r) ==
  LET f == Factor(m) tol == 12 * (1 + f[1] \div f[2])
      want(rows) == [i \in 1..Len(rows) |-> [k \in 1..Len(rows[i]) |-> Sized(m, rows[i][k])]]
  IN IF ~NearS(r.P, [i \in 1..Len(st.P) |-> MovedP(m, st.P[i])], tol) THEN "spine"
     ELSE IF ~RowsNear(r.W, IF Kept(st) THEN st.W ELSE want(st.W), tol) THEN "widths"
     \* the left becomes the right
     ELSE IF ~RowsNear(r.O, LET o == want(st.O) IN IF Reflects(m) THEN [i \in 1..Len(o) |-> [k \in 1..Len(o[i]) |-> -o[i][k]]] ELSE o, tol) THEN "offsets"
     ELSE ""

(* ---- construction ----------------------------------------------------------- *)
NewOf(e) ==
  LET n == IF e.wl THEN Len(e.w) ELSE IF e.ol THEN Len(e.o) ELSE 1
      w == [k \in 1..n |-> IF e.wl THEN e.w[k] ELSE e.w[1]]
      o == [k \in 1..n |-> IF e.ol THEN e.o[k] ELSE IF e.wl THEN ((2 * k - n - 1) * e.o[1]) \div 2 ELSE e.o[1]]
  IN [n |-> n, W |-> [i \in 1..Len(e.ps) |-> w], O |-> [i \in 1..Len(e.ps) |-> o]]
NewClause(e, r) ==
  LET x == NewOf(e) IN
  IF r.n # x.n THEN "number of parallel paths"
  ELSE IF ~NearS(r.P, e.ps, 12) THEN "spine"
  ELSE IF ~RowsNear(r.W, x.W, 12) THEN "widths"
  ELSE IF ~RowsNear(r.O, x.O, 12) THEN "offsets"
  ELSE ""
First(e, r) ==
  [P |-> r.P, W |-> r.W, O |-> r.O, n |-> r.n, tol |-> e.tol, mp |-> e.mp, gp |-> e.gp, wt |-> e.wt,
   cor |-> [k \in 1..r.n |-> Num1(e.cor, k)], ends |-> [k \in 1..r.n |-> Num1(e.ends, k)], rad |-> [k \in 1..r.n |-> Num1(e.rad, k)],
   ly |-> [k \in 1..r.n |-> Num1(e.ly, k)], dt |-> [k \in 1..r.n |-> Num1(e.dt, k)]]

LastOf(s) == s[Len(s)]
\* width and offset rows at the end of a section
EndW(st, e) == IF st.gp \/ e.wk = "none" THEN LastOf(st.W)
               ELSE [k \in 1..st.n |-> IF e.wk = "list" THEN e.w[k] ELSE e.w[1]]
EndO(st, e, times) == IF e.ok = "none" THEN LastOf(st.O)
                      ELSE [k \in 1..st.n |-> IF e.ok = "list" THEN e.o[k] ELSE LastOf(st.O)[k] + times * e.o[1]]
\* a row between two rows
Linear(a, b, i, n) == [k \in 1..Len(a) |-> a[k] + Ratio(b[k] - a[k], i, n)]
Tail1(s, n) == SubSeq(s, n + 1, Len(s))
Between(x, a, b) == \A k \in 1..Len(a) : Min2(a[k], b[k]) - 12 <= x[k] /\ x[k] <= Max2(a[k], b[k]) + 12
\* rows that go from a to b without turning back
Monotone(rows, a, b) ==
  LET n == Len(rows) p(i) == IF i = 0 THEN a ELSE rows[i]
  IN /\ \A k \in 1..Len(a) : Near(rows[n][k], b[k], 12)
     /\ \A i \in 1..n : Between(rows[i], p(i - 1), b)
\* even tapers of an arc; any others of a curve
EvenClause(rows, a, b) == \A i \in 1..Len(rows) : RowsNear(<<rows[i]>>, <<Linear(a, b, i, Len(rows))>>, 12)

\* offsets of m cubic curves: a given row is reached by the first, a number
\* is added by every one; cuts: numbers of points of the curves
RECURSIVE Steps(_, _, _, _, _)
Steps(rows, a, e, cuts, width) ==
  IF cuts = <<>> THEN rows = <<>>
  ELSE LET n == Head(cuts)
           k == IF width THEN e.wk ELSE e.ok
           v == IF width THEN e.w ELSE e.o
           b == IF k = "none" THEN a
                ELSE [i \in 1..Len(a) |-> IF k = "list" THEN v[i] ELSE IF width THEN v[1] ELSE a[i] + v[1]]
       IN /\ Len(rows) >= n /\ n > 0
          /\ Monotone(SubSeq(rows, 1, n), a, b)
          /\ Steps(Tail1(rows, n), b, e, Tail(cuts), width)

\* the direction a turn starts from is at right angles to the last section
TurnClause(st, e) ==
  LET n == Len(st.P) v == Sub(st.P[n], st.P[n - 1])
      s == IF e.ang > 0 THEN 1 ELSE -1
      f == <<-s * e.e0[2], s * e.e0[1]>>
  IN IF ~UnitOf(f, v) THEN "starting direction"
     ELSE IF ~NearP(e.e1, Rot6(e.e0, e.by), 20) THEN "DRIVER: angle" ELSE ""

SectionClause(st, e, r) ==
  LET n == Len(st.P)
      vs == Tail1(r.P, n) ws == Tail1(r.W, n) os == Tail1(r.O, n)
      p == LastOf(st.P)
      w0 == LastOf(st.W) o0 == LastOf(st.O)
      abs(ps) == IF e.rel THEN Shift(p, ps) ELSE ps
  IN IF ~Prefix(st.P, r.P) \/ ~Prefix(st.W, r.W) \/ ~Prefix(st.O, r.O) THEN "earlier sections changed"
     ELSE IF Len(r.W) # Len(r.P) \/ Len(r.O) # Len(r.P) THEN "rows"
     ELSE IF vs = <<>> THEN "no points"
     ELSE CASE e.f = "segment" ->
                 IF ~NearS(vs, abs(<<e.p>>), 12) THEN "spine"
                 ELSE IF ~RowsNear(ws, <<EndW(st, e)>>, 12) THEN "widths"
                 ELSE IF ~RowsNear(os, <<EndO(st, e, 1)>>, 12) THEN "offsets" ELSE ""
            [] e.f \in {"arc", "turn"} ->
                 LET c == IF e.f = "turn" THEN TurnClause(st, e) ELSE ""
                     a == ArcClause(e, p, vs)
                 IN IF c # "" THEN c ELSE IF a # "" THEN a
                    ELSE IF ~EvenClause(ws, w0, EndW(st, e)) THEN "widths"
                    ELSE IF ~EvenClause(os, o0, EndO(st, e, 1)) THEN "offsets" ELSE ""
            [] e.f \in {"bezier", "parametric"} ->
                 LET a == BeziersClause(<<<<p>> \o abs(e.ps)>>, vs, e.us, e.tol)
                 IN IF a # "" THEN a
                    ELSE IF ~Steps(ws, w0, IF st.gp THEN [e EXCEPT !.wk = "none"] ELSE e, <<Len(vs)>>, TRUE) THEN "widths"
                    ELSE IF ~Steps(os, o0, e, <<Len(vs)>>, FALSE) THEN "offsets" ELSE ""
            [] e.f = "smooth" ->
                 LET through == <<p>> \o abs(e.ps)
                     k == InterClause(e, through, e.gs)
                     a == BeziersClause(e.gs, vs, e.us, e.tol)
                     cuts == [i \in 1..Len(e.us) |-> Len(e.us[i])]
                 IN IF k # "" THEN k ELSE IF a # "" THEN a
                    ELSE IF ~Steps(ws, w0, IF st.gp THEN [e EXCEPT !.wk = "none"] ELSE e, cuts, TRUE) THEN "widths"
                    ELSE IF ~Steps(os, o0, e, cuts, FALSE) THEN "offsets" ELSE ""

(* ---- outlines ------------------------------------------------------------------ *)
\* c: certificate of path k: ud directions of the spine, cs centre points,
\* vd directions between them, sd directions of the sides (1: right, 2:
\* left), xs intersections of the sides at the corners
Sgn(s) == IF s = 1 THEN -1 ELSE 1
SA(st, k, c, i) == Add(st.P[i], Times6(st.O[i][k], LeftOf(c.ud[i])))
SB(st, k, c, i) == Add(st.P[i + 1], Times6(st.O[i + 1][k], LeftOf(c.ud[i])))
HalfW(st, k, i) == st.W[i][k] \div 2
PA(st, k, c, s, i) == Add(c.cs[i], Times6(Sgn(s) * HalfW(st, k, i), LeftOf(c.vd[i])))
PB(st, k, c, s, i) == Add(c.cs[i + 1], Times6(Sgn(s) * HalfW(st, k, i + 1), LeftOf(c.vd[i])))
Parallel(d, e) == Abs(Cross6(d, e)) <= 1
CertClause(st, k, c) ==
  LET N == Len(st.P)
      zero == \A i \in 1..N : st.O[i][k] = 0
      \* lines that meet at a small angle meet far away
      near(x, p, q, d, e) == LET w == Abs(p[1] - q[1]) + Abs(p[2] - q[2]) s == Max2(1, Abs(Cross6(d, e)) \div 1000)
                             IN NearP(x, p, Min2((w + 20) \div s, 1000000) * 1000 + w + 1100)
  IN IF Len(c.ud) # N - 1 \/ Len(c.cs) # N \/ Len(c.vd) # N - 1 \/ \E s \in 1..2 : Len(c.sd[s]) # N - 1 \/ Len(c.xs[s]) # N - 2 THEN "lengths"
     ELSE IF \E i \in 1..(N - 1) : ~UnitOf(c.ud[i], Sub(st.P[i + 1], st.P[i])) THEN "spine directions"
     ELSE IF zero /\ ~NearS(c.cs, st.P, 3) THEN "centres"
     ELSE IF ~zero /\ \/ ~NearP(c.cs[1], SA(st, k, c, 1), 12) \/ ~NearP(c.cs[N], SB(st, k, c, N - 1), 12)
                      \/ \E i \in 1..(N - 1) : ~OnLine(SA(st, k, c, i), c.cs[i], c.vd[i], 24) \/ ~OnLine(SB(st, k, c, i), c.cs[i], c.vd[i], 24)
                      \/ \E i \in 2..(N - 1) : LET p == SB(st, k, c, i - 1) q == SA(st, k, c, i) IN
                           IF Parallel(c.vd[i - 1], c.vd[i]) THEN ~NearP(c.cs[i], MidP(p, q), 24)
                           ELSE ~near(c.cs[i], p, q, c.vd[i - 1], c.vd[i]) THEN "centres with offset"
     ELSE IF \E i \in 1..(N - 1) : ~UnitOf(c.vd[i], Sub(c.cs[i + 1], c.cs[i])) THEN "directions"
     ELSE IF \E s \in 1..2 : \E i \in 1..(N - 1) : ~UnitOf(c.sd[s][i], Sub(PB(st, k, c, s, i), PA(st, k, c, s, i))) THEN "sides"
     ELSE IF \E s \in 1..2 : \E i \in 1..(N - 2) :
               LET p == PB(st, k, c, s, i) q == PA(st, k, c, s, i + 1) x == c.xs[s][i] d == c.sd[s][i] e == c.sd[s][i + 1] IN
               IF Parallel(d, e) THEN ~NearP(x, MidP(p, q), 24)
               ELSE ~OnLine(x, p, d, 24) \/ ~OnLine(x, q, e, 24) \/ ~near(x, p, q, d, e) THEN "intersections"
     ELSE ""

Pt(p) == [k |-> "pt", p |-> p, opt |-> FALSE]
Opt(p) == [k |-> "pt", p |-> p, opt |-> TRUE]
Arc(c, r, a, b, s) == [k |-> "arc", c |-> c, r |-> Abs(r), a |-> a, b |-> b, s |-> s]
Free(a, b) == [k |-> "free", a |-> a, b |-> b]
Alt(a, b) == [k |-> "alt", a |-> a, b |-> b]
RECURSIVE Backwards(_)
Backwards(items) == [i \in 1..Len(items) |->
  LET x == items[Len(items) + 1 - i] IN
  CASE x.k = "pt" -> x
    [] x.k = "arc" -> [x EXCEPT !.a = x.b, !.b = x.a, !.s = -@]
    [] x.k = "free" -> [x EXCEPT !.a = x.b, !.b = x.a]
    [] x.k = "alt" -> [x EXCEPT !.a = Backwards(x.a), !.b = Backwards(x.b)]]

\* corner between sections i and i + 1 on side s
Corner(st, k, c, s, i) ==
  LET p0 == PB(st, k, c, s, i) p1 == PA(st, k, c, s, i + 1) x == c.xs[s][i]
      d0 == c.sd[s][i] d1 == c.sd[s][i + 1]
      h == HalfW(st, k, i + 1)
      par == Parallel(d0, d1)
      t0 == IF par THEN 0 ELSE Dot6(Sub(x, p0), d0)
      t1 == IF par THEN 0 ELSE Dot6(Sub(x, p1), d1)
      turn == IF Cross6(d0, d1) > 0 THEN 1 ELSE -1
      inner == t0 <= 10 /\ t1 >= -10
      \* too close to decide
      unsure == inner /\ (t0 > -10 \/ t1 < 10)
      pick(items) == IF unsure THEN <<Alt(<<Pt(x)>>, items)>> ELSE IF inner THEN <<Pt(x)>> ELSE items
      kind == st.cor[k]
      \* away from the centre of the turn
      out(d) == IF turn = 1 THEN RightOf(d) ELSE LeftOf(d)
  IN CASE kind = "miter" -> <<Pt(x)>>
       [] kind = "natural" ->
            IF par \/ (t0 < 0 /\ t1 > 0) \/ (t0 <= h + 20 /\ t1 >= -(h + 20)) THEN <<Pt(x)>>
            ELSE <<Pt(Add(p0, Times6(Min2(h, t0), d0))), Pt(Add(p1, Times6(Max2(-h, t1), d1)))>>
       [] kind = "bevel" -> IF par THEN <<Pt(x)>> ELSE pick(<<Pt(p0), Pt(p1)>>)
       [] kind = "round" -> IF par THEN <<Pt(x)>>
                            ELSE LET m == c.cs[i + 1] IN
                                 pick(<<Arc(m, h, Add(m, Times6(h, out(d0))), Add(m, Times6(h, out(d1))), turn)>>)
       [] kind = "smooth" -> IF par THEN <<Pt(x)>> ELSE pick(<<Free(p0, p1)>>)
       [] kind = "circular bend" ->
            IF par THEN <<Pt(x)>>
            ELSE LET R == st.rad[k]
                     \* left turns: the left side is the inner one
                     r == IF (s = 2) <=> (turn = 1) THEN R - h ELSE R + h
                     a == Sub(p0, Times6(c.bd[i], d0)) b == Add(p1, Times6(c.bd[i], d1))
                 IN <<Arc(Sub(a, Times6(r, out(d0))), r, a, b, turn)>>
       [] kind = "call" -> [q \in 1..2 |-> Pt(IF q = 1 THEN p0 ELSE p1)]
\* bends: their centre is the same seen from both sections
BendClause(st, k, c) ==
  IF st.cor[k] # "circular bend" THEN ""
  ELSE IF \E i \in 1..(Len(st.P) - 2) :
            LET d0 == c.vd[i] d1 == c.vd[i + 1] m == c.cs[i + 1] R == st.rad[k]
                turn == IF Cross6(d0, d1) > 0 THEN 1 ELSE -1
                in(d) == IF turn = 1 THEN LeftOf(d) ELSE RightOf(d)
            IN ~Parallel(d0, d1) /\ ~NearP(Add(Sub(m, Times6(c.bd[i], d0)), Times6(R, in(d0))), Add(Add(m, Times6(c.bd[i], d1)), Times6(R, in(d1))), 60)
       THEN "bend" ELSE ""

\* end caps, from the right side to the left
Cap(st, k, c, atEnd) ==
  LET N == Len(st.P)
      m == IF atEnd THEN PB(st, k, c, 1, N - 1) ELSE PA(st, k, c, 1, 1)
      p == IF atEnd THEN PB(st, k, c, 2, N - 1) ELSE PA(st, k, c, 2, 1)
      d == IF atEnd THEN c.vd[N - 1] ELSE c.vd[1]
      out == IF atEnd THEN d ELSE <<-d[1], -d[2]>>
      h == HalfW(st, k, IF atEnd THEN N ELSE 1)
      e == st.ends[k]
      x == IF e.k = "extended" THEN h ELSE IF atEnd THEN e.b ELSE e.a
      flat(s) == LET sd == IF atEnd THEN c.sd[s][N - 1] ELSE c.sd[s][1] IN Abs(Cross6(sd, d)) <= 30
      side(q, s) == IF flat(s) THEN Opt(q) ELSE Pt(q)
      centre == IF atEnd THEN c.cs[N] ELSE c.cs[1]
  IN CASE e.k = "flush" -> <<Pt(m), Pt(p)>>
       [] e.k \in {"extended", "custom"} -> <<side(m, 1), Pt(Add(m, Times6(x, out))), Pt(Add(p, Times6(x, out))), side(p, 2)>>
       [] e.k = "round" -> <<Arc(centre, h, m, p, IF atEnd THEN 1 ELSE -1)>>
       [] e.k = "smooth" -> <<Free(m, p)>>
       [] e.k = "call" -> IF h < 50 THEN <<Pt(m), Pt(p)>> ELSE <<Pt(m), Pt(Add(MidP(m, p), Times6(50000, out))), Pt(p)>>
Arm(st, k, c, s) == Flat([i \in 1..(Len(st.P) - 2) |-> Corner(st, k, c, s, i)])
ItemsOf(st, k, c) ==
  Backwards(Cap(st, k, c, FALSE)) \o Arm(st, k, c, 1) \o Cap(st, k, c, TRUE) \o Backwards(Arm(st, k, c, 2))

(* ---- comparison ------------------------------------------------------------------ *)
TP == 60
Dist6(p, q) == LET d == Sub(p, q) IN Mul6(d[1], d[1]) + Mul6(d[2], d[2])
\* squared distances in 1/10000; d: how far from the circle, in counts
OnCircle(v, c, r, d) == Abs(Dist6(v, c) - Mul6(r, r)) <= 5 + Mul6(2 * r, d)
ArcOk(it, vs, tol) ==
  LET n == Len(vs) IN
  /\ n >= 1 /\ NearP(vs[1], it.a, TP) /\ NearP(vs[n], it.b, TP)
  /\ \A i \in 1..n : OnCircle(vs[i], it.c, it.r, 60)
  /\ \A i \in 1..(n - 1) :
       /\ it.s * Cross6(Sub(vs[i], it.c), Sub(vs[i + 1], it.c)) >= 0
       \* chords: not farther from the arc than one and a half steps allow
       /\ LET q == Max2(0, it.r - (5 * tol) \div 2 - 60) IN Dist6(MidP(vs[i], vs[i + 1]), it.c) + 5 >= Mul6(q, q)
FreeOk(it, vs) ==
  LET n == Len(vs) m == MidP(it.a, it.b) d == Abs(it.a[1] - it.b[1]) + Abs(it.a[2] - it.b[2]) IN
  /\ n >= 1 /\ NearP(vs[1], it.a, TP) /\ NearP(vs[n], it.b, TP)
  /\ \A i \in 1..n : NearP(vs[i], m, d + (d \div 5) + TP)
RECURSIVE Matches(_, _, _, _)
Matches(items, vs, last, tol) ==
  IF items = <<>> THEN vs = <<>>
  ELSE LET it == Head(items) IN
       IF it.k = "alt" THEN Matches(it.a \o Tail(items), vs, last, tol) \/ Matches(it.b \o Tail(items), vs, last, tol)
       ELSE IF it.k = "pt" THEN
         \/ vs # <<>> /\ NearP(Head(vs), it.p, TP) /\ Matches(Tail(items), Tail(vs), it.p, tol)
         \/ (it.opt \/ (last # <<>> /\ NearP(it.p, last, 120))) /\ Matches(Tail(items), vs, last, tol)
       ELSE \E n \in {n \in 1..Len(vs) : NearP(vs[n], it.b, TP)} :
              /\ LET fit(c) == IF it.k = "arc" THEN ArcOk(it, c, tol) ELSE FreeOk(it, c)
                 IN \/ fit(SubSeq(vs, 1, n))
                    \* the first vertex may coincide with the one before
                    \/ last # <<>> /\ NearP(it.a, last, 120) /\ fit(<<it.a>> \o SubSeq(vs, 1, n))
              /\ Matches(Tail(items), Tail1(vs, n), it.b, tol)
\* without repeated vertices
RECURSIVE Once(_, _)
Once(vs, acc) ==
  IF vs = <<>> THEN acc
  ELSE Once(Tail(vs), IF acc # <<>> /\ NearP(Head(vs), acc[Len(acc)], 25) THEN acc ELSE Append(acc, Head(vs)))
Loop(vs) == LET v == Once(vs, <<>>) IN IF Len(v) > 1 /\ NearP(v[1], v[Len(v)], 25) THEN SubSeq(v, 1, Len(v) - 1) ELSE v
From(vs, i) == SubSeq(vs, i, Len(vs)) \o SubSeq(vs, 1, i - 1)
Normal(items) == IF items[1].k = "pt" /\ items[1].opt THEN Tail(items) \o <<items[1]>> ELSE items
FirstPoint(it) == IF it.k = "pt" THEN it.p ELSE it.a
OutlineOk(items0, vs0, tol) ==
  LET items == Normal(items0)
      last == IF items[Len(items)].k = "pt" THEN items[Len(items)].p ELSE items[Len(items)].b
      try(vs) == \E i \in {i \in 1..Len(vs) : NearP(vs[i], FirstPoint(items[1]), TP)} : Matches(items, From(vs, i), last, tol)
      \* the first vertex may coincide with the last one
      v == Loop(vs0)
  IN try(v) \/ try(Reverse(v)) \/ try(v \o <<v[1]>>) \/ try(Reverse(v) \o <<v[Len(v)]>>)

(* ---- what paths are asked for ------------------------------------------------------ *)
\* path numbers in the order of the polygons: by layer and datatype
KeyOf(st, k) == <<st.ly[k], st.dt[k]>>
FirstK(st, k) == CHOOSE i \in 1..k : KeyOf(st, i) = KeyOf(st, k) /\ \A j \in 1..(i - 1) : KeyOf(st, j) # KeyOf(st, k)
Order(st) == SetToSortSeq(1..st.n, LAMBDA a, b : FirstK(st, a) < FirstK(st, b) \/ (FirstK(st, a) = FirstK(st, b) /\ a < b))
Keys(st) == [i \in 1..Cardinality({FirstK(st, k) : k \in 1..st.n}) |->
               KeyOf(st, SetToSortSeq({FirstK(st, k) : k \in 1..st.n}, <)[i])]
ByKey(st, by) == [key \in {KeyOf(st, k) : k \in 1..st.n} |->
                    Flat([i \in 1..Len(by) |-> IF <<by[i].ly, by[i].dt>> = key THEN by[i].ps ELSE <<>>])]
Coarse(gs, q) == [i \in 1..Len(gs) |-> [j \in 1..Len(gs[i]) |-> <<gs[i][j][1] \div q, gs[i][j][2] \div q>>]]
Clear(gs, p) == \A g \in SetOf(gs) : \A i \in 1..Len(g) :
  LET a == g[i] b == Nx(g, i) IN
  \/ p[1] < Min2(a[1], b[1]) - 20 \/ p[1] > Max2(a[1], b[1]) + 20
  \/ p[2] < Min2(a[2], b[2]) - 20 \/ p[2] > Max2(a[2], b[2]) + 20
  \/ Abs(Turning(a, b, p)) > 20 * (Abs(a[1] - b[1]) + Abs(a[2] - b[2]))
SameRegion(f, g) ==
  LET whole == Around(f)
      \* in 1/1000, coarser if large
      q == Max2(100, Max2(whole[3] - whole[1], whole[4] - whole[2]) \div 28000)
      a == Coarse(f, q) b == Coarse(g, q)
      bb == Around(a)
      stepx == Max2(7, (bb[3] - bb[1]) \div 17) stepy == Max2(7, (bb[4] - bb[2]) \div 17)
      lat == {<<bb[1] - 3 + stepx * i + (j % 3), bb[2] - 5 + stepy * j + (i % 4)>> : i \in 0..18, j \in 0..18}
             \cup UNION {{<<(h[i][1] + h[(i % Len(h)) + 1][1] + h[((i + 1) % Len(h)) + 1][1]) \div 3,
                            (h[i][2] + h[(i % Len(h)) + 1][2] + h[((i + 1) % Len(h)) + 1][2]) \div 3>> : i \in 1..Len(h)} : h \in SetOf(a)}
      in(gs, p) == \E h \in SetOf(gs) : Wind(h, p) # 0
  IN \A p \in lat : Clear(a, p) /\ Clear(b, p) => in(a, p) = in(b, p)

Small(gs) == \A g \in SetOf(gs) : \A v \in SetOf(g) : Abs(v[1]) < 20000000 /\ Abs(v[2]) < 20000000
AskClause(st, e) ==
  LET r == e.ret
      fract == st.mp > 4 /\ \E g \in SetOf(r.twin) : Len(g) > st.mp
      whole == IF fract THEN r.twin ELSE r.ps
      ord == Order(st)
      bad == {k \in 1..st.n : CertClause(st, k, e.cert[k]) # "" \/ BendClause(st, k, e.cert[k]) # ""}
      sizes == IF Small(r.ps) THEN Sum([i \in 1..Len(r.ps) |-> Area2(r.ps[i])]) ELSE NONE
      keys == {KeyOf(st, k) : k \in 1..st.n}
  IN IF ~Finite(r.ps) THEN "outline not finite"
     ELSE IF st.mp > 4 /\ \E g \in SetOf(r.ps) : Len(g) > st.mp THEN "more vertices than allowed"
     ELSE IF {<<b.ly, b.dt>> : b \in SetOf(r.by)} # keys \/ Len(r.by) # Cardinality(keys) THEN "layers and datatypes"
     ELSE IF ~SameBag(Flat([i \in 1..Len(r.by) |-> r.by[i].ps]), r.ps, LAMBDA f, g : NearS(f, g, 1)) THEN "polygons by layer and datatype"
     ELSE IF ~SameBag([i \in 1..Len(r.set) |-> r.set[i].g], r.ps, LAMBDA f, g : NearS(f, g, 1)) THEN "polygon set"
     ELSE IF \E b \in SetOf(r.by) : ~SameBag(b.ps, LET s == SelectSeq(r.set, LAMBDA x : x.ly = b.ly /\ x.dt = b.dt) IN [i \in 1..Len(s) |-> s[i].g], LAMBDA f, g : NearS(f, g, 1)) THEN "layers of the polygon set"
     ELSE IF sizes < 30000000 /\ Abs(r.area - sizes) > 60 + (sizes \div 20000) THEN "area"
     ELSE IF bad # {} THEN LET k == CHOOSE k \in bad : TRUE IN "DRIVER: " \o CertClause(st, k, e.cert[k]) \o BendClause(st, k, e.cert[k])
     ELSE IF Len(whole) # st.n THEN "number of outlines"
     ELSE IF \E i \in 1..st.n : ~OutlineOk(ItemsOf(st, ord[i], e.cert[ord[i]]), whole[i], st.tol) THEN
       LET i == CHOOSE i \in 1..st.n : ~OutlineOk(ItemsOf(st, ord[i], e.cert[ord[i]]), whole[i], st.tol)
       IN "outline (" \o st.cor[ord[i]] \o ", " \o st.ends[ord[i]].k \o ")"
     ELSE IF ~fract /\ \E b \in SetOf(r.by) : Len(b.ps) # Cardinality({k \in 1..st.n : KeyOf(st, k) = <<b.ly, b.dt>>}) THEN "outlines per layer"
     ELSE IF ~fract /\ Cardinality(keys) > 1 /\ \E b \in SetOf(r.by) : \E k \in 1..st.n : /\ KeyOf(st, k) = <<b.ly, b.dt>>
             /\ ~\E g \in SetOf(b.ps) : OutlineOk(ItemsOf(st, k, e.cert[k]), g, st.tol) THEN "outline on another layer"
     ELSE IF fract /\ ~SameRegion(r.twin, r.ps) THEN "region of the pieces"
     ELSE ""

\* as GDSII path elements, written with 100000 database units per unit
PathItems(st, k, c) ==
  LET N == Len(st.P)
      at(i) == IF st.cor[k] # "circular bend" \/ Parallel(c.vd[i - 1], c.vd[i]) THEN <<Pt(c.cs[i])>>
               ELSE LET d0 == c.vd[i - 1] d1 == c.vd[i] m == c.cs[i] R == st.rad[k]
                        turn == IF Cross6(d0, d1) > 0 THEN 1 ELSE -1
                        out(d) == IF turn = 1 THEN RightOf(d) ELSE LeftOf(d)
                        a == Sub(m, Times6(c.bd[i - 1], d0)) b == Add(m, Times6(c.bd[i - 1], d1))
                    IN <<Arc(Sub(a, Times6(R, out(d0))), R, a, b, turn)>>
  IN <<Pt(c.cs[1])>> \o Flat([i \in 1..(N - 2) |-> at(i + 1)]) \o <<Pt(c.cs[N])>>
TypeOf(e) == CASE e.k = "flush" -> 0 [] e.k \in {"round", "smooth"} -> 1 [] e.k = "extended" -> 2 [] e.k = "custom" -> 4 [] OTHER -> 0
GdsClause(st, e) ==
  LET els == e.ret.els
      bad == {k \in 1..st.n : CertClause(st, k, e.cert[k]) # "" \/ BendClause(st, k, e.cert[k]) # ""}
  IN IF bad # {} THEN LET k == CHOOSE k \in bad : TRUE IN "DRIVER: " \o CertClause(st, k, e.cert[k]) \o BendClause(st, k, e.cert[k])
     ELSE IF Len(els) # st.n THEN "number of elements"
     ELSE IF \E k \in 1..st.n : els[k].ly # st.ly[k] \/ els[k].dt # st.dt[k] THEN "element: layer or datatype"
     ELSE IF \E k \in 1..st.n : els[k].type # TypeOf(st.ends[k]) THEN "element: type of ends"
     ELSE IF \E k \in 1..st.n : ~Near(els[k].width, IF st.wt THEN st.W[1][k] ELSE -st.W[1][k], 12) THEN "element: width"
     ELSE IF \E k \in 1..st.n : st.ends[k].k = "custom" /\ ~(Near(els[k].a, st.ends[k].a, 12) /\ Near(els[k].b, st.ends[k].b, 12)) THEN "element: extensions"
     ELSE IF \E k \in 1..st.n : ~Matches(PathItems(st, k, e.cert[k]), Once(els[k].ps, <<>>), <<>>, st.tol) THEN "element: points"
     ELSE ""

\* what callables are given: every corner on both sides, both ends
SameDir(d, v) == Abs(Cross6(d, v)) <= 60 /\ Dot6(d, v) > 0
CallClause(st, e) ==
  LET log == e.ret.calls
      ks == {k \in 1..st.n : st.cor[k] = "call"}
      es == {k \in 1..st.n : st.ends[k].k = "call"}
      cornerOk(k, s, i, x) == LET c == e.cert[k] IN
        /\ x.w = "corner" /\ NearP(x.p0, PB(st, k, c, s, i), TP) /\ NearP(x.p1, PA(st, k, c, s, i + 1), TP)
        /\ SameDir(x.v0, c.sd[s][i]) /\ SameDir(x.v1, c.sd[s][i + 1])
        /\ NearP(x.c, c.cs[i + 1], TP) /\ Near(x.width, st.W[i + 1][k], 12)
      endOk(k, last, x) == LET c == e.cert[k] i == IF last THEN Len(st.P) - 1 ELSE 1
                               q(s) == IF last THEN PB(st, k, c, s, i) ELSE PA(st, k, c, s, 1)
                               g == IF last THEN 1 ELSE -1
                               \* arcs between tapering sides do not end on them
                               tell(d, v) == st.cor[k] = "round" \/ SameDir(d, v)
                           IN /\ x.w = "end" /\ NearP(x.p0, q(1), TP) /\ NearP(x.p1, q(2), TP)
                              /\ tell(Times6(g * E6, c.sd[1][i]), x.v0) /\ tell(Times6(-g * E6, c.sd[2][i]), x.v1)
  IN IF \E k \in ks : \E s \in 1..2 : \E i \in 1..(Len(st.P) - 2) : ~\E x \in SetOf(log) : cornerOk(k, s, i, x) THEN "arguments of the corner"
     ELSE IF \E k \in es : \E last \in BOOLEAN : ~\E x \in SetOf(log) : endOk(k, last, x) THEN "arguments of the end"
     ELSE ""

(* ---- histories ----------------------------------------------------------------------- *)
Same(st, r) == r.P = st.P /\ r.W = st.W /\ r.O = st.O
Clause(st, e) ==
  LET r == e.ret IN
  IF r.exc # "" THEN "outcome:" \o e.f \o ":" \o r.exc
  ELSE IF ~r.same THEN e.f \o ": does not return the path"
  ELSE LET c == CASE e.op = "new" -> NewClause(e, r)
                  [] e.op = "section" -> SectionClause(st, e, r)
                  [] e.op = "move" -> MoveClause(e, st, r)
                  [] e.op = "ask" -> IF ~Same(st, r) THEN "asking changes the path"
                                     ELSE LET a == IF Len(st.P) < 2 THEN IF r.ps = <<>> /\ r.by = <<>> /\ r.area = 0 THEN "" ELSE "outline without sections"
                                                   ELSE AskClause(st, e)
                                          IN IF a # "" THEN a ELSE IF Len(st.P) >= 2 THEN CallClause(st, e) ELSE ""
                  [] e.op = "gds" -> IF ~Same(st, r) THEN "asking changes the path" ELSE GdsClause(st, e)
       IN IF c = "" THEN "" ELSE e.f \o ": " \o c
Next1(st, e) ==
  CASE e.op = "new" -> First(e, e.ret)
    [] e.op = "section" -> [st EXCEPT !.P = e.ret.P, !.W = e.ret.W, !.O = e.ret.O]
    [] e.op = "move" -> [Moved(e, st) EXCEPT !.P = e.ret.P, !.W = e.ret.W, !.O = e.ret.O]
    [] OTHER -> st
=============================================================================
