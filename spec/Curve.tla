-------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* Curves drawn by commands.  State: the points so far, and the last       *)
(* control point of a cubic (c) or quadratic (q) section, if the last      *)
(* command drew one (<<>> otherwise).                                      *)
(*                                                                         *)
(* Bezier sections are judged by certificate: for every vertex its         *)
(* parameter in 1/1000000; interpolated ones also by their control points; *)
(* arcs by the direction of every vertex from the centre.                  *)
(***************************************************************************)
EXTENDS Num

T == 12        \* tolerance of exact points
TB == 60       \* and of points of curves, whose parameters are rounded

Start(p) == [pts |-> <<p>>, c |-> <<>>, q |-> <<>>]
End(st) == st.pts[Len(st.pts)]
Shift(o, ps) == [i \in 1..Len(ps) |-> Add(o, ps[i])]
Mirror(p, c) == IF c = <<>> THEN p ELSE <<2 * p[1] - c[1], 2 * p[2] - c[2]>>

(* ---- commands as sections ------------------------------------------------ *)
\* what a command draws: straight sections (their ends), or control polygons
Smalls == {"l", "h", "v", "c", "s", "q", "t", "b", "i"}
\* the points given, in absolute coordinates
Given(st, e) == IF e.cmd \in Smalls THEN Shift(End(st), e.ps) ELSE e.ps
Chunk(s, k, i) == SubSeq(s, (i - 1) * k + 1, i * k)
Kind(e) == CASE e.cmd \in {"C", "c", "S", "s", "I", "i"} -> "c"
             [] e.cmd \in {"Q", "q", "T", "t"} -> "q"
             [] OTHER -> "n"
\* control polygons of a command, one after the other; p: current point,
\* r: the point to reflect (or <<>>)
RECURSIVE Beziers(_, _, _, _)
Beziers(cmd, ps, p, r) ==
  IF ps = <<>> THEN <<>>
  ELSE LET k == CASE cmd \in {"C", "c"} -> 3 [] cmd \in {"S", "s", "Q", "q"} -> 2 [] cmd \in {"T", "t"} -> 1 [] OTHER -> Len(ps)
           h == SubSeq(ps, 1, k)
           g == <<p>> \o (IF cmd \in {"S", "s", "T", "t"} THEN <<Mirror(p, r)>> ELSE <<>>) \o h
       IN <<g>> \o Beziers(cmd, SubSeq(ps, k + 1, Len(ps)), g[Len(g)], g[Len(g) - 1])
Curved(cmd) == cmd \in {"C", "c", "S", "s", "Q", "q", "T", "t", "B", "b"}
BeziersOf(st, e) ==
  Beziers(e.cmd, Given(st, e), End(st),
          CASE e.cmd \in {"S", "s"} -> st.c [] e.cmd \in {"T", "t"} -> st.q [] OTHER -> <<>>)
\* ends of straight sections; x and y keep the other coordinate of the
\* point before the command
Lines(st, e) ==
  LET p == End(st) IN
  CASE e.cmd \in {"L", "l"} -> Given(st, e)
    [] e.cmd = "H" -> [i \in 1..Len(e.xs) |-> <<e.xs[i], p[2]>>]
    [] e.cmd = "h" -> [i \in 1..Len(e.xs) |-> <<p[1] + e.xs[i], p[2]>>]
    [] e.cmd = "V" -> [i \in 1..Len(e.xs) |-> <<p[1], e.xs[i]>>]
    [] e.cmd = "v" -> [i \in 1..Len(e.xs) |-> <<p[1], p[2] + e.xs[i]>>]
Straight(cmd) == cmd \in {"L", "l", "H", "h", "V", "v"}

(* ---- Bezier curves -------------------------------------------------------- *)
Lerp(a, b, u) == <<a[1] + Mul6(b[1] - a[1], u), a[2] + Mul6(b[2] - a[2], u)>>
RECURSIVE At(_, _)
At(g, u) == IF Len(g) = 1 THEN g[1] ELSE At([i \in 1..(Len(g) - 1) |-> Lerp(g[i], g[i + 1], u)], u)
Within(p, q, d) == LET x == Abs(p[1] - q[1]) y == Abs(p[2] - q[2]) IN
                   x <= 30000 /\ y <= 30000 /\ x * x + y * y <= Min2(d, 45000) * Min2(d, 45000)
Half(p, q) == <<(p[1] + q[1]) \div 2, (p[2] + q[2]) \div 2>>
\* vertices vs, with parameters us, approximate the curve with control
\* polygon g from its first point (not among the vertices) to its last
BezierClause(g, vs, us, tol) ==
  LET n == Len(vs)
      u0(i) == IF i = 1 THEN 0 ELSE us[i - 1]
      v0(i) == IF i = 1 THEN g[1] ELSE vs[i - 1]
  IN IF n = 0 THEN "nothing drawn"
     ELSE IF \E i \in 1..n : us[i] = NONE THEN "vertex off the curve"
     ELSE IF us[n] # E6 THEN "does not reach its end"
     ELSE IF \E i \in 1..n : us[i] < u0(i) THEN "vertices out of order"
     ELSE IF ~NearP(vs[n], g[Len(g)], T) THEN "end point"
     ELSE IF \E i \in 1..n : ~NearP(vs[i], At(g, us[i]), TB) THEN "vertex off the curve"
     ELSE IF \E i \in 1..n : ~Within(At(g, (u0(i) + us[i]) \div 2), Half(v0(i), vs[i]), 2 * tol + 60) THEN "chord beyond the tolerance"
     ELSE ""
RECURSIVE BeziersClause(_, _, _, _)
BeziersClause(gs, vs, us, tol) ==
  IF gs = <<>> THEN IF vs = <<>> THEN "" ELSE "more points than its sections"
  ELSE IF us = <<>> THEN "too few sections"
  ELSE LET n == Len(Head(us)) IN
       IF n > Len(vs) THEN "DRIVER: certificate"
       ELSE LET c == BezierClause(Head(gs), SubSeq(vs, 1, n), Head(us), tol) IN
            IF c # "" THEN c ELSE BeziersClause(Tail(gs), SubSeq(vs, n + 1, Len(vs)), Tail(us), tol)

(* ---- interpolation --------------------------------------------------------- *)
\* directions of two vectors agree (of up to 200 units, not tiny)
RECURSIVE Shrink(_)
Shrink(v) == IF Abs(v[1]) > 20000 \/ Abs(v[2]) > 20000 THEN Shrink(<<v[1] \div 2, v[2] \div 2>>) ELSE v
RECURSIVE Grow(_)
Grow(v) == IF Abs(v[1]) < 10000 /\ Abs(v[2]) < 10000 /\ v # <<0, 0>> THEN Grow(<<v[1] * 2, v[2] * 2>>) ELSE v
Scaled(v) == Grow(Shrink(v))
Len1(v) == Abs(v[1]) + Abs(v[2])
Aligned(v, w) ==
  LET a == Scaled(v) b == Scaled(w)
      x == a[1] * b[2] - a[2] * b[1]
      d == a[1] * b[1] + a[2] * b[2]
      \* the shorter of both is known to one count
      slack == 20000 + 80000000 \div Max2(1, Min2(Len1(v), Len1(w)))
  IN d > 0 /\ Abs(x) \div 1000 <= slack
\* ctrl: pairs of control points of the sections; through: the points to
\* interpolate, the first being where the curve is; angles: for every point,
\* a direction or <<>>
InterClause(e, through, gs) ==
  LET n == Len(through)
      m == Len(gs)
      closed == e.cycle
      into(i) == Sub(gs[i][4], gs[i][3])
      from(i) == Sub(gs[i][2], gs[i][1])
      tiny(v) == Len1(v) < 2000
      same(v, w) == tiny(v) \/ tiny(w) \/ Aligned(v, w)
  IN IF m # (IF closed THEN n ELSE n - 1) THEN "sections of the interpolation"
     ELSE IF \E i \in 1..m : ~NearP(gs[i][1], through[i], T) \/ ~NearP(gs[i][4], Cyc(through, i + 1), T) THEN "points of the interpolation"
     ELSE IF \E i \in 1..m : /\ i < m \/ closed
                             /\ ~same(into(i), from(IF i = m THEN 1 ELSE i + 1)) THEN "corner in the interpolation"
     ELSE IF e.angles # <<>> /\ \E i \in 1..n : /\ e.angles[i] # <<>>
                /\ \/ (i > 1 \/ closed) /\ ~same(into(IF i = 1 THEN m ELSE i - 1), e.angles[i])
                   \/ i <= m /\ ~same(from(i), e.angles[i]) THEN "angle of the interpolation"
     ELSE ""

(* ---- arcs -------------------------------------------------------------------- *)
\* radii r, axes turned by rot; from the direction e0 to e1 (relative to the
\* axes), by ang (1/1000000, with sign)
OnAxes(e, d) == Rot6(<<Mul6(e.r[1], d[1]), Mul6(e.r[2], d[2])>>, e.rot)
ArcClause(e, p, vs) ==
  LET n == Len(vs)
      d(i) == IF i = 0 THEN e.e0 ELSE e.es[i]
      s == IF e.ang > 0 THEN 1 ELSE -1
      sine(i) == s * (Mul6(d(i - 1)[1], d(i)[2]) - Mul6(d(i - 1)[2], d(i)[1]))
      center == Sub(p, OnAxes(e, e.e0))
      rmax == Max2(e.r[1], e.r[2])
      \* how far the middle of the chord of the unit circle is from it
      flat(i) == LET m == Half(d(i - 1), d(i)) IN E6 - ((Mul6(m[1], m[1]) + Mul6(m[2], m[2])))
  IN IF n = 0 \/ Len(e.es) # n THEN "arc: points"
     ELSE IF \E i \in 1..n : Abs(Mul6(d(i)[1], d(i)[1]) + Mul6(d(i)[2], d(i)[2]) - E6) > 50 THEN "arc: vertex off the curve"
     ELSE IF ~NearP(vs[n], Add(center, OnAxes(e, e.e1)), TB) THEN "arc: end point"
     ELSE IF \E i \in 1..n : ~NearP(vs[i], Add(center, OnAxes(e, d(i))), TB) THEN "arc: vertex off the curve"
     ELSE IF \E i \in 1..n : sine(i) <= 0 THEN "arc: direction"
     \* 1 - |m|^2 is twice the sagitta over the radius
     ELSE IF \E i \in 1..n : Mul6(rmax, flat(i)) > 4 * e.tol + 20 THEN "arc: chord beyond the tolerance"
     ELSE IF Abs(Sum([i \in 1..n |-> sine(i)]) - Abs(e.ang)) > 2 * E6 THEN "arc: angle"
     ELSE ""

(* ---- histories ------------------------------------------------------------------ *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
New(st, e) == SubSeq(e.ret.pts, Len(st.pts) + 1, Len(e.ret.pts))
After(st, e) ==
  LET pts == e.ret.pts IN
  IF Curved(e.cmd) THEN
    LET gs == BeziersOf(st, e) g == gs[Len(gs)] z == g[Len(g) - 1] IN
    [pts |-> pts, c |-> IF Kind(e) = "c" THEN z ELSE <<>>, q |-> IF Kind(e) = "q" THEN z ELSE <<>>]
  ELSE IF e.cmd \in {"I", "i"} THEN [pts |-> pts, c |-> e.gs[Len(e.gs)][3], q |-> <<>>]
  ELSE [pts |-> pts, c |-> <<>>, q |-> <<>>]
\* the points handed out: the last one is left out if the curve is closed
\* within the tolerance
GivenOut(st, e) ==
  LET p == st.pts n == Len(p) d == Sub(p[n], p[1])
      close == Within(p[1], p[n], e.tol)
      border == Within(p[1], p[n], e.tol + 3) /\ (e.tol <= 3 \/ ~Within(p[1], p[n], e.tol - 3))
  IN IF ~border THEN e.ret.v = (IF close THEN SubSeq(p, 1, n - 1) ELSE p)
     ELSE e.ret.v = p \/ e.ret.v = SubSeq(p, 1, n - 1)
CmdClause(st, e) ==
  IF ~Prefix(st.pts, e.ret.pts) THEN e.cmd \o ": earlier points changed"
  ELSE IF \E p \in SetOf(e.ret.pts) : p[1] = NONE \/ p[2] = NONE THEN e.cmd \o ": not finite"
  ELSE LET vs == New(st, e) c ==
    CASE Straight(e.cmd) -> IF NearS(vs, Lines(st, e), T) THEN "" ELSE "points"
      [] Curved(e.cmd) -> BeziersClause(BeziersOf(st, e), vs, e.us, e.tol)
      [] e.cmd \in {"I", "i"} -> LET through == <<End(st)>> \o Given(st, e)
                                     k == InterClause(e, through, e.gs)
                                 IN IF k # "" THEN k ELSE BeziersClause(e.gs, vs, e.us, e.tol)
      [] e.cmd = "arc" -> ArcClause(e, End(st), vs)
      [] OTHER -> "DRIVER: unknown command"
  IN IF c = "" THEN "" ELSE e.cmd \o ": " \o c

CurveClause(st, e) ==
  IF e.ret.exc # "" THEN "outcome:" \o e.op \o ":" \o e.ret.exc
  ELSE IF e.ret.same = FALSE THEN e.op \o ": does not return the curve"
  ELSE CASE e.op = "new" -> IF NearS(e.ret.pts, <<e.p>>, T) THEN "" ELSE "start"
    [] e.op = "cmd" -> CmdClause(st, e)
    [] e.op = "get" -> IF e.ret.pts # st.pts THEN "asking changes the curve" ELSE IF GivenOut(st, e) THEN "" ELSE "points handed out"
CurveNext(st, e) == CASE e.op = "new" -> Start(e.ret.pts[1])
                  [] e.op = "cmd" -> After(st, e)
                  [] OTHER -> st
=============================================================================
