------------------------------ MODULE MCRobustPath ------------------------------
(***************************************************************************)
(* Every sequence (up to Depth) of sections and moves from a small         *)
(* repertoire of robust paths: segments along the axes, quarters of        *)
(* circles and curves, with widths and offsets that are kept, tapered or   *)
(* functions.  TLC checks what the specification relies on: sections       *)
(* follow each other, boundaries are where the widths say, directions are  *)
(* the derivatives of positions, boundaries move with the path, and the    *)
(* clauses accept the boundary of the path and nothing beside it.  The     *)
(* sequences are emitted and replayed into the library.                    *)
(***************************************************************************)
EXTENDS RobustPath, Json

CONSTANTS EMIT, Depth
VARIABLES st, seq, before, start
vars == <<st, seq, before, start>>

H2 == U \div 2
Sec(f, ps, wk, w, ok, o) == [op |-> "section", f |-> f, ps |-> ps, rel |-> TRUE, wk |-> wk, w |-> w, ok |-> ok, o |-> o]
Seg(v, wk, w, ok, o) == Sec("segment", <<v>>, wk, w, ok, o)
Plain(v) == Seg(v, "none", <<>>, "none", <<>>)
Round4(f, r, e0, ang, wk, w, ok, o) ==
  [op |-> "section", f |-> f, ps |-> <<>>, rel |-> FALSE, wk |-> wk, w |-> w, ok |-> ok, o |-> o, r |-> r, e0 |-> e0, ang |-> ang]
Axes == {<<5 * U, 0>>, <<-6 * U, 0>>, <<0, 5 * U>>, <<0, -6 * U>>}
Segments == {Plain(v) : v \in Axes}
            \cup {Seg(<<5 * U, 0>>, "num", <<<<2 * U>>>>, "none", <<>>),
                  Seg(<<0, 5 * U>>, "list", <<<<U>>, <<2 * U>>>>, "num", <<<<H2>>>>),
                  Seg(<<5 * U, 0>>, "fun", <<<<U, U, -H2>>>>, "none", <<>>),
                  Seg(<<-6 * U, 0>>, "none", <<>>, "fun", <<<<0, 0, H2>>>>),
                  Seg(<<0, -6 * U>>, "num", <<<<H2>>>>, "list", <<<<-H2>>, <<H2>>>>)}
Bends == {Sec("bezier", <<<<2 * U, 0>>, <<4 * U, U>>, <<6 * U, 3 * U>>>>, "none", <<>>, "none", <<>>),
            Sec("bezier", <<<<0, 3 * U>>, <<3 * U, 5 * U>>>>, "num", <<<<U>>>>, "num", <<<<H2>>>>)}
Quarter == {1570796, -1570796}
Axis(v) == IF Abs(v[1]) > Abs(v[2]) THEN <<IF v[1] > 0 THEN E6 ELSE -E6, 0>> ELSE <<0, IF v[2] > 0 THEN E6 ELSE -E6>>
Last0 == st.secs[Len(st.secs)]
Heading == IF st.secs = <<>> THEN <<0, 0>> ELSE Frame(Last0, E6).t
\* turns go on along the axes
Turns4 == IF st.secs = <<>> \/ Abs(Cross6(Heading, Axis(Heading))) > 20 \/ (\E k \in 1..st.n : Df(Last0.o[k], E6) # 0) THEN {}
          ELSE {Round4("turn", r, IF a > 0 THEN RightOf(Axis(Heading)) ELSE LeftOf(Axis(Heading)), a, "none", <<>>, "none", <<>>) : r \in {3 * U}, a \in Quarter}
Arcs == {Round4("arc", 4 * U, e, 1570796, "num", <<<<U>>>>, "none", <<>>) : e \in {<<E6, 0>>, <<0, -E6>>}}
        \cup {Round4("arc", 3 * U, <<0, E6>>, -1570796, "none", <<>>, "num", <<<<H2>>>>)}
Towards(e) == IF e.f \in {"arc", "turn"} THEN (IF e.ang > 0 THEN LeftOf(e.e0) ELSE RightOf(e.e0)) ELSE Along(e.ps[1])
Fits(e) == /\ st.secs = <<>> \/ Dot6(Heading, Towards(e)) > -600000
           /\ e.wk = "fun" => st.gp \/ \A k \in 1..st.n : st.w[k] = e.w[1][1]
Turns == [q \in 0..3 |-> CASE q = 0 -> <<E6, 0>> [] q = 1 -> <<0, E6>> [] q = 2 -> <<-E6, 0>> [] q = 3 -> <<0, -E6>>]
Moves == {[op |-> "move", f |-> "translate", x |-> U, y |-> -2 * U],
          [op |-> "move", f |-> "rotate", c |-> <<0, 0>>, e |-> Turns[1], q |-> 1],
          [op |-> "move", f |-> "rotate", c |-> <<U, -U>>, e |-> Turns[2], q |-> 2],
          [op |-> "move", f |-> "scale", c |-> <<0, 0>>, s |-> <<2, 1>>],
          [op |-> "move", f |-> "scale", c |-> <<U, U>>, s |-> <<-1, 2>>],
          [op |-> "move", f |-> "transform", t |-> <<U, 0>>, e |-> Turns[3], q |-> 3, s |-> <<2, 1>>, x |-> FALSE, at |-> <<0, U>>],
          [op |-> "move", f |-> "transform", t |-> <<>>, e |-> Turns[1], q |-> 1, s |-> <<>>, x |-> TRUE, at |-> <<>>],
          [op |-> "move", f |-> "transform", t |-> <<0, U>>, e |-> <<>>, q |-> 0, s |-> <<1, 2>>, x |-> TRUE, at |-> <<>>]}

E(k, a, b) == [k |-> k, a |-> a, b |-> b]
Start2(o, w, ends, gp, wt) ==
  [x |-> <<0, 0>>, n |-> 2, w |-> w, o |-> o, secs |-> <<>>, tol |-> 1000, me |-> 1000, mp |-> 199, gp |-> gp, wt |-> wt,
   ends |-> ends, ly |-> <<0, 1>>, dt |-> <<0, 0>>]
Starts == <<Start2(<<-U, U>>, <<U, U>>, <<E("flush", 0, 0), E("custom", H2, U)>>, FALSE, TRUE),
           Start2(<<0, H2>>, <<H2, U>>, <<E("extended", 0, 0), E("round", 0, 0)>>, FALSE, FALSE),
           Start2(<<H2, -H2>>, <<U, U>>, <<E("custom", 0, H2), E("extended", 0, 0)>>, TRUE, FALSE)>>
Do(s, e) == IF e.op = "section" THEN Extend(s, e) ELSE RMoved(e, s)
Init == start \in 1..Len(Starts) /\ st = Starts[start] /\ before = st /\ seq = <<>>
Next == /\ Len(seq) < Depth
        /\ \E e \in {x \in Segments \cup Bends \cup Arcs \cup Turns4 : Fits(x)} \cup (IF st.secs = <<>> THEN {} ELSE Moves) :
             /\ st' = Do(st, e)
             /\ before' = st
             /\ seq' = Append(seq, e)
             /\ Abs(st'.x[1]) < 60 * U /\ Abs(st'.x[2]) < 60 * U
        /\ UNCHANGED start
Spec == Init /\ [][Next]_vars

(* ---- laws ---------------------------------------------------------------------- *)
Last1 == seq[Len(seq)]
Some == {0, 250000, 500000, 900000, E6}
Both == {1, -1}
Pairs(s) == 1..(Len(s.secs) - 1)
\* the others were there before
Fresh == IF seq = <<>> THEN {} ELSE IF Last1.op = "section" THEN {Len(st.secs)} ELSE 1..Len(st.secs)
\* sections follow each other, and the last ends where the path does
Chained == /\ \A i \in Pairs(st) : NearP(Spine(st.secs[i], E6), Spine(st.secs[i + 1], 0), 12)
           /\ st.secs # <<>> => /\ NearP(Spine(Last0, E6), st.x, 12)
                                /\ \A k \in 1..st.n : Near(Fn(Last0.w[k], E6), st.w[k], 12) /\ Near(Fn(Last0.o[k], E6), st.o[k], 12)
           /\ \A i \in 1..Len(st.secs) : \A k \in 1..st.n : \A u \in Some : Wide(st.secs[i], k, u) >= 0
\* arguments do what they say, to the last section only
Grows == seq # <<>> /\ Last1.op = "section" =>
  /\ Prefix(before.secs, st.secs) /\ Len(st.secs) = Len(before.secs) + 1
  /\ \A k \in 1..st.n :
       /\ Last1.wk \in {"none", "num"} \/ st.gp => Last0.w[k][1] = before.w[k]
       /\ Last1.wk = "none" \/ st.gp => st.w[k] = before.w[k]
       /\ (Last1.wk = "num" /\ ~st.gp) => st.w[k] = Last1.w[1][1]
       /\ Last1.ok # "list" => Last0.o[k][1] = before.o[k]
       /\ Last1.ok = "none" => st.o[k] = before.o[k]
       /\ Last1.ok = "num" => st.o[k] = before.o[k] + Last1.o[1][1]
\* boundaries: half a width to the left and right of the centre, which is
\* the offset to the right of the spine
Sides == \A i \in Fresh : \A k \in 1..st.n : \A u \in Some :
  LET s == st.secs[i] c == Centre(s, k, u) x == Spine(s, u) f == Frame(s, u).t h == Head1(s, k, u) IN
  /\ Near(Cross6(f, Sub(c, x)), -Fn(s.o[k], u), 10) /\ Near(Dot6(f, Sub(c, x)), 0, 10)
  /\ \A a \in Both : LET d == Sub(Bound(s, k, u, a), c) IN
       Near(a * Cross6(h, d), Wide(s, k, u) \div 2, 10) /\ Near(Dot6(h, d), 0, 10)
\* directions are derivatives of the positions
Step == 10000
Regular(s, k, u, a) == LET v == Max2(Step, Min2(E6 - Step, u)) IN Len1(Sub(Bound(s, k, v + Step, a), Bound(s, k, v - Step, a))) > 900
Changes == \A i \in Fresh : \A k \in 1..st.n : \A u \in {250000, 500000, 900000} : \A a \in {-1, 0, 1} :
  LET s == st.secs[i]
      d == Sub(Bound(s, k, u + Step, a), Bound(s, k, u - Step, a))
      t == Tangent(s, k, u, a)
  IN \* (but where a boundary shrinks to a point)
     Regular(s, k, u, a) =>
     /\ Abs(Cross6(d, t)) <= 12 + ((Abs(d[1]) + Abs(d[2])) \div 400) /\ Dot6(d, t) > 0
     /\ a = 0 => LET v == Veloc(s, k, u) IN NearP(<<50 * d[1], 50 * d[2]>>, v, 700 + ((Abs(v[1]) + Abs(v[2])) \div 400))
\* arcs with even offsets: circles
Circles == \A i \in Fresh : \A k \in 1..st.n :
  LET s == st.secs[i] IN
  s.k = "arc" /\ s.o[k][2] = 0 /\ s.o[k][3] = 0 =>
    \A u \in Some : \A a \in {-1, 0, 1} :
      LET out == IF s.ang > 0 THEN s.o[k][1] - a * (Wide(s, k, u) \div 2) ELSE -s.o[k][1] + a * (Wide(s, k, u) \div 2)
      IN OnCircle(Bound(s, k, u, a), s.c, s.r + out, 12)
\* boundaries move with the path, the left one to the right where reflected
Equivariant == seq # <<>> /\ Last1.op = "move" =>
  /\ Len(st.secs) = Len(before.secs) /\ st.n = before.n
  /\ \A i \in 1..Len(st.secs) : \A k \in 1..st.n : \A u \in Some :
       LET s == st.secs[i] z == before.secs[i] g == IF Reflects(Last1) THEN -1 ELSE 1
           arms == IF Kept(st) /\ Factor(Last1) # <<1, 1>> THEN {0} ELSE {-1, 0, 1}
       IN \A a \in arms : /\ NearP(Bound(s, k, u, g * a), MovedP(Last1, Bound(z, k, u, a)), 25)
                          /\ Regular(z, k, u, a) => NearP(Times6(100000, Tangent(s, k, u, g * a)), Times6(100000, MovedE(Last1, Tangent(z, k, u, a))), 12)
\* the clauses accept the boundaries and nothing beside them
GRID == 40
RECURSIVE ItemsTo(_, _)
ItemsTo(s, i) ==
  LET inner == [j \in 1..(GRID - 1) |-> <<i, j * (E6 \div GRID)>>] IN
  IF i = 1 THEN <<<<1, 0>>>> \o inner ELSE ItemsTo(s, i - 1) \o <<<<i - 1, E6, 0>>>> \o inner
Items(s) == ItemsTo(s, Len(s.secs)) \o <<<<Len(s.secs), E6>>>>
Points(s, k, a) == LET it == Items(s) IN [j \in 1..Len(it) |-> Bound(s.secs[it[j][1]], k, it[j][2], a)]
Shifted(ps, i) == [ps EXCEPT ![i] = <<@[1] + 4000, @[2] - 4000>>]
Swapped(ps, i) == [ps EXCEPT ![i] = ps[i + 1], ![i + 1] = ps[i]]
Cut(ps, i, j) == SubSeq(ps, 1, i - 1) \o SubSeq(ps, j, Len(ps))
Bent(s, k) == (s.k = "arc" /\ s.r > 2 * U) \/ (s.k = "bez" /\ Len(s.g) = 2 /\ Abs(s.w[k][3]) > 40000)
Accepts == seq # <<>> /\ Last1.op = "section" /\ Continuous(st) /\ Len(st.secs) <= 2 => \A k \in 1..st.n : \A a \in (IF k = 1 THEN {-1, 1} ELSE {0}) :
  LET it == Items(st) ps == Points(st, k, a) n == Len(ps) IN
  /\ SideClause(st, k, a, it, ps) = ""
  /\ \A i \in {1, 5, GRID, n} : SideClause(st, k, a, it, Shifted(ps, i)) # ""
  /\ SideClause(st, k, a, it, Swapped(ps, 7)) # ""
  /\ SideClause(st, k, a, Cut(it, n - 1, n), ps) # ""
  /\ SideClause(st, k, a, Cut(it, n, n + 1), Cut(ps, n, n + 1)) # ""
  /\ (a # 0 /\ Bent(st.secs[1], k)) => SideClause(st, k, a, Cut(it, 2, GRID), Cut(ps, 2, GRID)) # ""
Seen(s) == [n |-> s.n, len |-> Len(s.secs), x |-> s.x, w |-> s.w, o |-> s.o]
Observed == seq # <<>> =>
  LET r == Seen(st) IN
  /\ SeenClause(st, r, 40) = ""
  /\ SeenClause(st, [r EXCEPT !.x = <<@[1] + 100, @[2]>>], 40) # ""
  /\ \A k \in 1..st.n : SeenClause(st, [r EXCEPT !.w[k] = @ + 50], 40) # "" /\ SeenClause(st, [r EXCEPT !.o[k] = @ - 50], 40) # ""
Emit == EMIT /\ Len(seq') = Depth => PrintT("EMIT " \o ToJson([start |-> Starts[start], seq |-> seq']))
=============================================================================
