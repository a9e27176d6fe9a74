-------------------------------- MODULE MCGdsii --------------------------------
(* Streams built record by record by a legal writer.  Checks that decoding    *)
(* gives back what was encoded, that no proper prefix is a library, and that  *)
(* setting timestamps changes nothing else; prints the streams for replay.    *)
EXTENDS Gdsii, Json
CONSTANTS MaxCells, MaxEl, Rich
VARIABLES b, phase, abs
vars == <<b, phase, abs>>

E8(x, m1) == [s |-> 0, m |-> <<m1, 0, 0, 0, 0, 0, 0>>, x |-> x]
TWO == E8(2, 128)
A90 == E8(7, 180)
A180 == E8(8, 180)
A270 == E8(9, 135)
HALF == E8(0, 128)
DBU == [s |-> 0, m |-> <<137, 112, 95, 65, 54, 180, 168>>, x |-> -29]     \* 1e-9
UPD == [s |-> 0, m |-> <<131, 18, 110, 151, 141, 79, 224>>, x |-> -9]      \* 1e-3
Pad(s) == IF Len(s) % 2 = 1 THEN Append(s, 0) ELSE s
Opt(has, r) == IF has THEN r ELSE <<>>
XYs(g) == Flat(Map(LAMBDA p : B32(p[1]) \o B32(p[2]), g))

\* the element records of a description v; optional records are there or not
EncTrans(v) ==
  Opt(v.st, Rec(STRANS, 1, <<IF v.xr THEN 128 ELSE 0, 0>>))
  \o Opt(v.st /\ v.m # UNITY, Rec(MAGN, 5, Enc(v.m))) \o Opt(v.st /\ v.a # ZERO, Rec(ANGLE, 5, Enc(v.a)))
EncProps(v) == Flat(Map(LAMBDA p : Rec(PROPATTR, 2, B16(p[1])) \o Rec(PROPVALUE, 6, Pad(p[2])), v.pr))
EncXY(v) ==
  LET d == XYs(v.g) IN
  IF v.split > 0 THEN Rec(XY, 3, SubSeq(d, 1, 8 * v.split)) \o Rec(XY, 3, SubSeq(d, 8 * v.split + 1, Len(d))) ELSE Rec(XY, 3, d)
EncEl(v) ==
  (CASE v.k = "boundary" -> Rec(BOUNDARY, 0, <<>>) \o Opt(v.flag, Rec(ELFLAGS, 1, <<0, 1>>)) \o Opt(v.flag, Rec(PLEX, 3, B32(7)))
                            \o Rec(LAYER, 2, B16(v.l)) \o Rec(DATATYPE, 2, B16(v.d)) \o EncXY([v EXCEPT !.g = Append(@, @[1])])
     [] v.k = "box" -> Rec(BOX, 0, <<>>) \o Rec(LAYER, 2, B16(v.l)) \o Rec(BOXTYPE, 2, B16(v.d)) \o Rec(XY, 3, XYs(Append(v.g, v.g[1])))
     [] v.k = "path" -> Rec(PATH, 0, <<>>) \o Rec(LAYER, 2, B16(v.l)) \o Rec(DATATYPE, 2, B16(v.d))
                        \o Opt(v.hp, Rec(PATHTYPE, 2, B16(v.pt))) \o Opt(v.w # 0, Rec(WIDTH, 3, B32(v.w)))
                        \o Opt(v.b # 0, Rec(BGNEXTN, 3, B32(v.b))) \o Opt(v.e # 0, Rec(ENDEXTN, 3, B32(v.e))) \o EncXY(v)
     [] v.k = "sref" -> Rec(SREF, 0, <<>>) \o Rec(SNAME, 6, Pad(v.n)) \o EncTrans(v) \o Rec(XY, 3, XYs(<<v.p>>))
     [] v.k = "aref" -> Rec(AREF, 0, <<>>) \o Rec(SNAME, 6, Pad(v.n)) \o EncTrans(v) \o Rec(COLROW, 2, B16(v.co) \o B16(v.ro))
                        \o Rec(XY, 3, XYs(v.g))
     [] v.k = "text" -> Rec(TEXT, 0, <<>>) \o Rec(LAYER, 2, B16(v.l)) \o Rec(TEXTTYPE, 2, B16(v.tt))
                        \o Opt(v.hp, Rec(PRESENTATION, 1, <<0, v.an>>)) \o Opt(v.flag, Rec(PATHTYPE, 2, B16(1)) \o Rec(WIDTH, 3, B32(-3)))
                        \o EncTrans(v) \o Rec(XY, 3, XYs(<<v.p>>)) \o Rec(CHARS, 6, Pad(v.s))
     [] v.k = "node" -> Rec(NODE, 0, <<>>) \o Rec(LAYER, 2, B16(1)) \o Rec(NODETYPE, 2, B16(1)) \o Rec(XY, 3, XYs(<< <<0, 0>> >>)))
  \o EncProps(v) \o Rec(ENDEL, 0, <<>>)
\* what decoding it must give
Meaning(v) ==
  CASE v.k \in {"boundary", "box"} -> [k |-> v.k, l |-> v.l, d |-> v.d, g |-> v.g, pr |-> Props(v.pr)]
    [] v.k = "path" -> [k |-> "path", l |-> v.l, d |-> v.d, pt |-> IF v.hp THEN v.pt ELSE 0, w |-> v.w, b |-> v.b, e |-> v.e,
                        g |-> v.g, pr |-> Props(v.pr)]
    [] v.k = "sref" -> [k |-> "sref", n |-> v.n, xr |-> v.st /\ v.xr, m |-> IF v.st THEN v.m ELSE UNITY, a |-> IF v.st THEN v.a ELSE ZERO,
                        p |-> v.p, pr |-> Props(v.pr)]
    [] v.k = "aref" -> [k |-> "aref", n |-> v.n, xr |-> v.st /\ v.xr, m |-> IF v.st THEN v.m ELSE UNITY, a |-> IF v.st THEN v.a ELSE ZERO,
                        g |-> v.g, co |-> v.co, ro |-> v.ro, pr |-> Props(v.pr)]
    [] v.k = "text" -> [k |-> "text", l |-> v.l, tt |-> v.tt, an |-> IF v.hp THEN v.an ELSE 5, xr |-> v.st /\ v.xr,
                        m |-> IF v.st THEN v.m ELSE UNITY, a |-> IF v.st THEN v.a ELSE ZERO, p |-> v.p, s |-> v.s, pr |-> Props(v.pr)]
    [] v.k = "node" -> [k |-> "node"]

\* ---- the elements a writer may write
A == <<65>>
BB == <<66, 66>>
NN == <<78, 49, 50>>
PR == { <<>>, << <<1, <<112>>>> >>, << <<2, <<>>>>, <<2, <<113, 113>>>>, <<1, <<114, 114, 114>>>> >> }
TRI == << <<0, 0>>, <<300, 0>>, <<70000, -65537>> >>
SQ == << <<-1, -1>>, <<-1, 4>>, <<5, 4>>, <<5, -1>> >>
Boundaries == {[k |-> "boundary", l |-> l, d |-> 32767, g |-> TRI, split |-> s, flag |-> f, pr |-> p] :
                 l \in {0, 300}, s \in {0, 1, 3}, f \in BOOLEAN, p \in PR}
Boxes == {[k |-> "box", l |-> 1, d |-> 2, g |-> SQ, pr |-> p] : p \in PR}
Nodes == {[k |-> "node", pr |-> p] : p \in PR}
Paths == {[k |-> "path", l |-> 1, d |-> 0, hp |-> x[1], pt |-> x[2], w |-> w, b |-> x[3], e |-> x[4], g |-> SubSeq(SQ, 1, 3),
           split |-> s, pr |-> <<>>] :
            x \in {<<FALSE, 0, 0, 0>>, <<TRUE, 0, 0, 0>>, <<TRUE, 1, 0, 0>>, <<TRUE, 2, 0, 0>>, <<TRUE, 4, 0, 0>>, <<TRUE, 4, 3, 0>>,
                   <<TRUE, 4, 0, -2>>, <<TRUE, 4, 7, 1>>}, w \in {0, 4, -4}, s \in {0, 1}}
Turns == {<<ZERO, 0>>, <<A90, 1>>, <<A180, 2>>, <<A270, 3>>}
Mags == {UNITY, TWO, HALF}
Srefs == {[k |-> "sref", n |-> n, st |-> x[1], xr |-> x[2], m |-> m, a |-> a[1], p |-> <<3, -7>>, pr |-> <<>>] :
            n \in {A, BB, NN}, x \in {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>}, m \in Mags, a \in Turns}
Arefs == {[k |-> "aref", n |-> n, st |-> x[1], xr |-> x[2], m |-> m, a |-> a[1], co |-> 2, ro |-> 3, pr |-> <<>>,
           g |-> LET turn(v) == IF x[1] THEN RotQ(Flip(v, x[2]), a[2]) ELSE v
                     c == turn(<<10, 0>>) r == turn(<<0, -12>>)
                 IN << <<1, 2>>, <<1 + c[1], 2 + c[2]>>, <<1 + r[1], 2 + r[2]>> >>] :
            n \in {A, BB}, x \in {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>}, m \in {UNITY, TWO}, a \in Turns}
Texts == {[k |-> "text", l |-> 3, tt |-> 4, hp |-> x[1], an |-> x[2], flag |-> f, st |-> y[1], xr |-> y[2], m |-> y[3], a |-> y[4],
           p |-> <<-5, 6>>, s |-> s, pr |-> p] :
            x \in {<<FALSE, 0>>, <<TRUE, 0>>, <<TRUE, 5>>, <<TRUE, 10>>}, f \in BOOLEAN,
            y \in {<<FALSE, FALSE, UNITY, ZERO>>, <<TRUE, TRUE, TWO, ZERO>>, <<TRUE, FALSE, UNITY, A90>>},
            s \in {<<>>, <<116>>, <<116, 117>>}, p \in {<<>>, << <<1, <<112>>>> >>}}
All == Boundaries \cup Boxes \cup Nodes \cup Paths
       \cup {v \in Srefs : v.st \/ (v.m = UNITY /\ v.a = ZERO)} \cup {v \in Arefs : v.st \/ (v.m = UNITY /\ v.a = ZERO)} \cup Texts
\* after the first element, one of each kind with few options
Few == {[k |-> "boundary", l |-> 0, d |-> 32767, g |-> TRI, split |-> 0, flag |-> FALSE, pr |-> <<>>],
        [k |-> "box", l |-> 1, d |-> 2, g |-> SQ, pr |-> <<>>],
        [k |-> "path", l |-> 1, d |-> 0, hp |-> FALSE, pt |-> 0, w |-> 0, b |-> 0, e |-> 0, g |-> SubSeq(SQ, 1, 3), split |-> 0, pr |-> <<>>],
        [k |-> "sref", n |-> A, st |-> FALSE, xr |-> FALSE, m |-> UNITY, a |-> ZERO, p |-> <<3, -7>>, pr |-> <<>>],
        [k |-> "aref", n |-> BB, st |-> FALSE, xr |-> FALSE, m |-> UNITY, a |-> ZERO, co |-> 2, ro |-> 3, pr |-> <<>>,
         g |-> << <<1, 2>>, <<11, 2>>, <<1, -10>> >>],
        [k |-> "text", l |-> 3, tt |-> 4, hp |-> FALSE, an |-> 0, flag |-> FALSE, st |-> FALSE, xr |-> FALSE, m |-> UNITY, a |-> ZERO,
         p |-> <<-5, 6>>, s |-> <<116>>, pr |-> <<>>]}

T0 == <<2020, 1, 2, 3, 4, 5>>
T1 == <<1999, 12, 31, 23, 59, 58>>
Head0 == Rec(HEADER, 2, <<2, 88>>) \o Rec(BGNLIB, 2, Stamp(T0)) \o Rec(LIBNAME, 6, Pad(<<76>>))
         \o Rec(UNITS, 5, Enc(UPD) \o Enc(DBU))
Init == b = Head0 /\ phase = "lib" /\ abs = <<>>
Count == Sum([i \in 1..Len(abs) |-> Len(abs[i].els)])
Begin == /\ phase = "lib" /\ Len(abs) < MaxCells
         /\ LET n == IF Len(abs) = 0 THEN A ELSE BB IN
            /\ b' = b \o Rec(BGNSTR, 2, Stamp(T0)) \o Rec(STRNAME, 6, Pad(n))
            /\ abs' = Append(abs, [name |-> n, els |-> <<>>])
         /\ phase' = "cell"
Add == /\ phase = "cell" /\ Count < MaxEl
       /\ \E v \in IF Count = 0 \/ Rich THEN All ELSE Few :
            /\ b' = b \o EncEl(v)
            /\ abs' = [abs EXCEPT ![Len(abs)].els = Append(@, Meaning(v))]
       /\ UNCHANGED phase
End == phase = "cell" /\ phase' = "lib" /\ b' = b \o Rec(ENDSTR, 0, <<>>) /\ UNCHANGED abs
Close == phase = "lib" /\ phase' = "done" /\ b' = b \o Rec(ENDLIB, 0, <<>>) /\ UNCHANGED abs
Next == Begin \/ Add \/ End \/ Close
Spec == Init /\ [][Next]_vars

\* decoding inverts encoding, and only finished streams are libraries
RoundTrip ==
  LET D == Decode(b) IN
  IF phase # "done" THEN ~D.ok
  ELSE /\ D.ok /\ D.name = <<76>> /\ D.ts = Stamp(T0) /\ D.user = UPD /\ D.meters = DBU
       /\ Len(D.cells) = Len(abs)
       /\ \A i \in 1..Len(abs) : D.cells[i].name = abs[i].name /\ D.cells[i].els = abs[i].els /\ D.cells[i].ts = Stamp(T0)
\* stamping: an involution up to the date, changing 24 bytes per timestamp and no others
Stamping ==
  phase = "done" =>
    LET s == Stamped(b, T1)
        R == Records(b)
        allowed == UNION {(R[i].i + 4)..(R[i].i + 27) : i \in {j \in 1..Len(R) : R[j].t \in {BGNLIB, BGNSTR}}}
    IN /\ Stamped(s, T0) = b /\ Len(s) = Len(b)
       /\ \A i \in 1..Len(b) : (s[i] # b[i]) => i \in allowed
       /\ Contents(s) = Contents(b)
       /\ Trim(b \o <<0, 0, 0, 0>>) = b
\* the bytes of the structures are a partition of the body
Partition ==
  phase = "done" => Head0 \o Flat(Map(LAMBDA c : c.bytes, StructBytes(b))) \o Rec(ENDLIB, 0, <<>>) = b
\* real numbers
Reals ==
  b = Head0 => \A d \in {UNITY, TWO, HALF, A90, A180, A270, DBU, UPD, ZERO}
                  \cup {[s |-> s, m |-> <<m, 255, 255, 255, 255, 255, 248>>, x |-> x] : s \in {0, 1}, m \in {128, 255}, x \in -250..250} :
                 Real(Enc(d), 1) = d /\ Len(Enc(d)) = 8 /\ (d.m = ZEROM \/ Enc(d)[2] >= 16)
Emit == IF phase' = "done" THEN PrintT("EMIT " \o ToJson([bytes |-> b'])) ELSE TRUE
=============================================================================
