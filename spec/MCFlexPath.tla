------------------------------- MODULE MCFlexPath -------------------------------
(***************************************************************************)
(* Every sequence (up to Depth) of commands from a small repertoire for    *)
(* paths with sections along the axes, where directions and intersections  *)
(* are exact.  TLC checks what the specification relies on: outlines move  *)
(* with the path, mitered outlines have the area of width times length,    *)
(* tapers start where the last section ended, and the clauses accept the   *)
(* outline of the path and nothing beside it.  The sequences are emitted   *)
(* and replayed into the library.                                          *)
(***************************************************************************)
EXTENDS FlexPath, Json

CONSTANTS EMIT, Depth
VARIABLES st, seq, before, start
vars == <<st, seq, before, start>>

H2 == U \div 2
Seg(v, wk, w, ok, o) == [op |-> "section", f |-> "segment", p |-> v, rel |-> TRUE, wk |-> wk, w |-> w, ok |-> ok, o |-> o]
Plain(v) == Seg(v, "none", <<>>, "none", <<>>)
Axes == {<<4 * U, 0>>, <<-6 * U, 0>>, <<0, 4 * U>>, <<0, -6 * U>>}
Sections == {Plain(v) : v \in Axes}
            \cup {Seg(<<4 * U, 0>>, "num", <<U>>, "none", <<>>), Seg(<<0, 4 * U>>, "list", <<U, 2 * U>>, "list", <<H2, 0>>),
                  Seg(<<-6 * U, 0>>, "none", <<>>, "num", <<H2>>)}
Turns == [q \in 0..3 |-> CASE q = 0 -> <<E6, 0>> [] q = 1 -> <<0, E6>> [] q = 2 -> <<-E6, 0>> [] q = 3 -> <<0, -E6>>]
Moves == {[op |-> "move", f |-> "translate", x |-> U, y |-> -2 * U],
          [op |-> "move", f |-> "rotate", c |-> <<0, 0>>, e |-> Turns[1], q |-> 1],
          [op |-> "move", f |-> "rotate", c |-> <<U, -U>>, e |-> Turns[2], q |-> 2],
          [op |-> "move", f |-> "scale", c |-> <<0, 0>>, s |-> <<2, 1>>],
          [op |-> "move", f |-> "scale", c |-> <<U, U>>, s |-> <<-1, 2>>],
          [op |-> "move", f |-> "transform", t |-> <<U, 0>>, e |-> Turns[3], q |-> 3, s |-> <<2, 1>>, x |-> FALSE, at |-> <<0, U>>],
          [op |-> "move", f |-> "transform", t |-> <<>>, e |-> Turns[1], q |-> 1, s |-> <<>>, x |-> TRUE, at |-> <<>>],
          [op |-> "move", f |-> "transform", t |-> <<0, U>>, e |-> <<>>, q |-> 0, s |-> <<1, 2>>, x |-> TRUE, at |-> <<>>]}

E(k, a, b) == [k |-> k, a |-> a, b |-> b]
Start2(o, w, cor, ends, gp, wt) ==
  [P |-> <<<<0, 0>>, <<4 * U, 0>>>>, W |-> <<w, w>>, O |-> <<o, o>>, n |-> 2, tol |-> 1000, mp |-> 199, gp |-> gp, wt |-> wt,
   cor |-> cor, ends |-> ends, rad |-> <<0, 0>>, ly |-> <<0, 1>>, dt |-> <<0, 0>>]
Starts == <<Start2(<<-H2, H2>>, <<H2, U>>, <<"miter", "natural">>, <<E("flush", 0, 0), E("custom", H2, U)>>, FALSE, TRUE),
           Start2(<<0, 0>>, <<U, H2>>, <<"miter", "bevel">>, <<E("extended", 0, 0), E("flush", 0, 0)>>, FALSE, FALSE),
           Start2(<<H2, 0>>, <<U, U>>, <<"natural", "natural">>, <<E("custom", 0, H2), E("extended", 0, 0)>>, TRUE, FALSE)>>

Do(s, e) ==
  IF e.op = "section" THEN [s EXCEPT !.P = Append(@, Add(LastOf(@), e.p)), !.W = Append(@, EndW(s, e)), !.O = Append(@, EndO(s, e, 1))]
  ELSE LET m == Moved(e, s)
           sized(rows) == [i \in 1..Len(rows) |-> [k \in 1..Len(rows[i]) |-> Sized(e, rows[i][k])]]
       IN [m EXCEPT !.P = [i \in 1..Len(@) |-> MovedP(e, @[i])], !.W = IF Kept(s) THEN @ ELSE sized(@), !.O = sized(@)]

Dir(p, q) == <<IF q[1] > p[1] THEN E6 ELSE IF q[1] < p[1] THEN -E6 ELSE 0, IF q[2] > p[2] THEN E6 ELSE IF q[2] < p[2] THEN -E6 ELSE 0>>
Heading(s) == Dir(s.P[Len(s.P) - 1], LastOf(s.P))
Zero(s) == \A i \in 1..Len(s.O) : \A k \in 1..s.n : s.O[i][k] = 0
Init == start \in 1..Len(Starts) /\ st = Starts[start] /\ before = st /\ seq = <<>>
Next == /\ Len(seq) < Depth
        /\ \E e \in Sections \cup Moves :
             /\ e.op = "section" => Dir(<<0, 0>>, e.p) # <<-Heading(st)[1], -Heading(st)[2]>>
             /\ e.f = "transform" => ~e.x \/ Zero(st)
             /\ \A v \in SetOf(Do(st, e).P) : Abs(v[1]) < 40 * U /\ Abs(v[2]) < 40 * U
             /\ st' = Do(st, e)
             /\ before' = st
             /\ seq' = Append(seq, e)
        /\ UNCHANGED start
Spec == Init /\ [][Next]_vars

(* ---- exact certificates ------------------------------------------------------ *)
Even(s) == \A i \in 1..(Len(s.P) - 1) : s.W[i] = s.W[i + 1] /\ s.O[i] = s.O[i + 1]
\* where lines along the axes meet
Cross2(p, d, q, e) == IF (d[1] # 0 /\ e[1] # 0) \/ (d[2] # 0 /\ e[2] # 0) THEN MidP(p, q)
                      ELSE IF d[1] # 0 THEN <<q[1], p[2]>> ELSE <<p[1], q[2]>>
CertOf(s, k) ==
  LET N == Len(s.P)
      ud == [i \in 1..(N - 1) |-> Dir(s.P[i], s.P[i + 1])]
      u == [ud |-> ud]
      cs == [i \in 1..N |-> IF i = 1 THEN SA(s, k, u, 1) ELSE IF i = N THEN SB(s, k, u, N - 1)
                            ELSE Cross2(SB(s, k, u, i - 1), ud[i - 1], SA(s, k, u, i), ud[i])]
      vd == [i \in 1..(N - 1) |-> Dir(cs[i], cs[i + 1])]
      c == [ud |-> ud, cs |-> cs, vd |-> vd]
      xs == [d \in 1..2 |-> [i \in 1..(N - 2) |-> Cross2(PB(s, k, c, d, i), vd[i], PA(s, k, c, d, i + 1), vd[i + 1])]]
  IN [ud |-> ud, cs |-> cs, vd |-> vd, sd |-> <<vd, vd>>, xs |-> xs, bd |-> [i \in 1..(N - 2) |-> 0]]
\* sections not consumed by their neighbours
Clean(s) == /\ Even(s)
            /\ \A k \in 1..s.n : LET c == CertOf(s, k) IN c.vd = c.ud /\ \A i \in 1..(Len(s.P) - 1) : c.cs[i] # c.cs[i + 1]
Drawn(s, k) == LET its == ItemsOf(s, k, CertOf(s, k)) IN [i \in 1..Len(its) |-> its[i].p]

(* ---- laws ---------------------------------------------------------------------- *)
Last1 == seq[Len(seq)]
Shape == /\ Len(st.W) = Len(st.P) /\ Len(st.O) = Len(st.P)
         /\ \A i \in 1..Len(st.P) : Len(st.W[i]) = st.n /\ Len(st.O[i]) = st.n /\ \A k \in 1..st.n : st.W[i][k] >= 0
         /\ Kept(st) => Even(st) \/ \E i \in 1..Len(st.P) : st.O[i] # st.O[1]
Certified == Clean(st) => \A k \in 1..st.n : CertClause(st, k, CertOf(st, k)) = ""
\* outlines move with the path (widths that are kept do not)
Equivariant == seq # <<>> /\ Last1.op = "move" /\ Clean(before) /\ (Factor(Last1) = <<1, 1>> \/ ~Kept(st)) =>
  \A k \in 1..st.n : LET d == Drawn(before, k) IN
    OutlineOk(ItemsOf(st, k, CertOf(st, k)), [i \in 1..Len(d) |-> MovedP(Last1, d[i])], st.tol)
\* what was drawn before stays
Grows == seq # <<>> /\ Last1.op = "section" =>
  /\ Prefix(before.P, st.P) /\ Prefix(before.W, st.W) /\ Prefix(before.O, st.O)
  /\ (Last1.wk = "none" \/ st.gp => LastOf(st.W) = LastOf(before.W))
  /\ (Last1.ok = "none" => LastOf(st.O) = LastOf(before.O))
  /\ (Last1.ok = "num" => \A k \in 1..st.n : LastOf(st.O)[k] - LastOf(before.O)[k] = Last1.o[1])
\* moves keep proportions; only reflections change the direction of turns
Orientation(s) == Shoe(s.P, 1, 0)
Similar == seq # <<>> /\ Last1.op = "move" =>
  LET f == Factor(Last1) far(s, i) == Abs(s.P[i + 1][1] - s.P[i][1]) + Abs(s.P[i + 1][2] - s.P[i][2])
      flips == Last1.f = "transform" /\ Last1.x
      o == (Orientation(before) \div 100) * f[1] * f[1]
  IN /\ \A i \in 1..(Len(st.P) - 1) : Near(far(st, i) * f[2], far(before, i) * f[1], 4)
     /\ Near((Orientation(st) \div 100) * f[2] * f[2], IF flips THEN -o ELSE o, 40)
     /\ st.n = before.n /\ Len(st.P) = Len(before.P)
\* the area of mitered paths is width times length
Length(s, k) == LET c == CertOf(s, k)
                    RECURSIVE sum(_)
                    sum(i) == IF i = 0 THEN 0 ELSE Abs(c.cs[i + 1][1] - c.cs[i][1]) + Abs(c.cs[i + 1][2] - c.cs[i][2]) + sum(i - 1)
                IN sum(Len(s.P) - 1)
Caps(s, k) == LET e == s.ends[k] IN CASE e.k = "extended" -> s.W[1][k] [] e.k = "custom" -> e.a + e.b [] OTHER -> 0
Square == Clean(st) => \A k \in 1..st.n : st.cor[k] = "miter" \/ Len(st.P) = 2 =>
  LET d == Drawn(st, k) want == 2 * Mul6(Length(st, k) + Caps(st, k), st.W[1][k])
  IN Abs(Area2(d) - want) <= 100
\* the clauses accept this and nothing beside it
Shifted(ps, i) == [ps EXCEPT ![i] = <<@[1] + 700, @[2] - 700>>]
Without(ps, i) == SubSeq(ps, 1, i - 1) \o SubSeq(ps, i + 1, Len(ps))
Corners(ps) == {i \in 1..Len(ps) : LET p == ps[IF i = 1 THEN Len(ps) ELSE i - 1] q == ps[i] r == Nx(ps, i) IN
                  ~NearP(p, q, 25) /\ ~NearP(q, r, 25) /\ Abs(Turning(<<p[1] \div 100, p[2] \div 100>>, <<q[1] \div 100, q[2] \div 100>>, <<r[1] \div 100, r[2] \div 100>>)) > 1000}
Accepts == Clean(st) => \A k \in 1..st.n :
  LET its == ItemsOf(st, k, CertOf(st, k)) d == Drawn(st, k) IN
  /\ OutlineOk(its, d, st.tol) /\ OutlineOk(its, Reverse(d), st.tol)
  /\ \A i \in Corners(d) : ~OutlineOk(its, Shifted(d, i), st.tol) /\ ~OutlineOk(its, Without(d, i), st.tol)
Moving == seq # <<>> /\ Last1.op = "move" =>
  LET N == Len(st.P) IN
  /\ MoveClause(Last1, before, st) = ""
  /\ MoveClause(Last1, before, [st EXCEPT !.P = Shifted(@, N)]) # ""
  /\ \A i \in 1..N : MoveClause(Last1, before, [st EXCEPT !.W[i][1] = @ + 50]) # "" /\ MoveClause(Last1, before, [st EXCEPT !.O[i][2] = @ - 50]) # ""
Sectioned == seq # <<>> /\ Last1.op = "section" =>
  LET N == Len(st.P) IN
  /\ SectionClause(before, Last1, st) = ""
  /\ SectionClause(before, Last1, [st EXCEPT !.P = Shifted(@, N)]) # ""
  /\ \A i \in 1..N : SectionClause(before, Last1, [st EXCEPT !.W[i][1] = @ + 50]) # "" /\ SectionClause(before, Last1, [st EXCEPT !.O[i][2] = @ - 50]) # ""
Emit == EMIT /\ Len(seq') = Depth => PrintT("EMIT " \o ToJson([start |-> Starts[start], seq |-> seq']))
=============================================================================
