-------------------------------- MODULE Gdsii --------------------------------
(***************************************************************************)
(* The GDSII stream format as a sequence of bytes: its records, grammar,   *)
(* and meaning; what gdspy's writers must produce and its reader must      *)
(* understand.                                                             *)
(*                                                                         *)
(* A real number is [s, m, x]: sign, 56-bit mantissa as seven bytes with   *)
(* the first bit set (zero: all zero), and binary exponent, so that the    *)
(* value is (-1)^s * 0.m * 2^x; doubles use the first 53 bits.             *)
(***************************************************************************)
EXTENDS Hier

(* ---- numbers ----------------------------------------------------------- *)
U16(b, i) == b[i] * 256 + b[i + 1]
S16(b, i) == LET v == U16(b, i) IN IF v >= 32768 THEN v - 65536 ELSE v
S32(b, i) == (IF b[i] >= 128 THEN b[i] - 256 ELSE b[i]) * 16777216
             + b[i + 1] * 65536 + b[i + 2] * 256 + b[i + 3]
B16(v) == LET u == v % 65536 IN <<u \div 256, u % 256>>
B32(v) == <<(v \div 16777216) % 256, (v \div 65536) % 256, (v \div 256) % 256, v % 256>>

Pow2 == <<2, 4, 8, 16, 32, 64, 128, 256>>
P2(n) == IF n = 0 THEN 1 ELSE Pow2[n]
ByteBit(c, k) == (c \div P2(8 - k)) % 2
Bit(m, k) == ByteBit(m[((k - 1) \div 8) + 1], ((k - 1) % 8) + 1)     \* k in 1..56
FromBits(bs) == [i \in 1..7 |->
  LET j == 8 * (i - 1) IN
  128 * bs[j + 1] + 64 * bs[j + 2] + 32 * bs[j + 3] + 16 * bs[j + 4]
  + 8 * bs[j + 5] + 4 * bs[j + 6] + 2 * bs[j + 7] + bs[j + 8]]
ZEROM == <<0, 0, 0, 0, 0, 0, 0>>
ZERO == [s |-> 0, m |-> ZEROM, x |-> 0]
UNITY == [s |-> 0, m |-> <<128, 0, 0, 0, 0, 0, 0>>, x |-> 1]

\* adds 8 to the 56-bit number m (used after the last three bits were cleared)
RECURSIVE AddAt(_, _, _)
AddAt(m, i, c) ==
  IF i = 0 THEN [m |-> m, carry |-> c]
  ELSE IF m[i] + c < 256 THEN [m |-> [m EXCEPT ![i] = @ + c], carry |-> 0]
  ELSE AddAt([m EXCEPT ![i] = @ + c - 256], i - 1, 1)

\* the double nearest to the real with mantissa m (first bit set) and exponent x
Nearest(s, m, x) ==
  LET low == m[7] % 8
      cut == [m EXCEPT ![7] = @ - low]
      up == low > 4 \/ (low = 4 /\ (m[7] \div 8) % 2 = 1)
      a == AddAt(cut, 7, 8)
  IN IF ~up THEN [s |-> s, m |-> cut, x |-> x]
     ELSE IF a.carry = 0 THEN [s |-> s, m |-> a.m, x |-> x]
     ELSE [s |-> s, m |-> <<128, 0, 0, 0, 0, 0, 0>>, x |-> x + 1]

\* eight bytes starting at b[i], as the nearest double
Real(b, i) ==
  LET s == b[i] \div 128
      e == (b[i] % 128) - 64
      m == SubSeq(b, i + 1, i + 7)
  IN IF m = ZEROM THEN ZERO
     ELSE LET z == CHOOSE k \in 0..55 : Bit(m, k + 1) = 1 /\ \A j \in 1..k : Bit(m, j) = 0
              n == IF z = 0 THEN m ELSE FromBits([k \in 1..56 |-> IF k + z <= 56 THEN Bit(m, k + z) ELSE 0])
          IN Nearest(s, n, 4 * e - z)

\* the normalised eight bytes of a double
InRange(d) == d.m = ZEROM \/ (((d.x + 3) \div 4) >= -64 /\ ((d.x + 3) \div 4) <= 63)
Enc(d) ==
  IF d.m = ZEROM THEN <<0>> \o ZEROM
  ELSE LET e == (d.x + 3) \div 4
           pad == 4 * e - d.x
           m == IF pad = 0 THEN d.m ELSE FromBits([k \in 1..56 |-> IF k > pad THEN Bit(d.m, k - pad) ELSE 0])
       IN <<128 * d.s + e + 64>> \o m

(* ---- records ----------------------------------------------------------- *)
\* [t, d, p, i]: type, data type, payload, and where it starts
RECURSIVE RecsFrom(_, _, _)
RecsFrom(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE IF i + 3 > Len(b) THEN Append(acc, [t |-> -1, d |-> 0, p |-> <<>>, i |-> i])
  ELSE LET n == U16(b, i) IN
       IF n < 4 \/ n % 2 = 1 \/ i + n - 1 > Len(b)
       THEN Append(acc, [t |-> -1, d |-> 0, p |-> <<>>, i |-> i])
       ELSE RecsFrom(b, i + n, Append(acc, [t |-> b[i + 2], d |-> b[i + 3], p |-> SubSeq(b, i + 4, i + n - 1), i |-> i]))
Records(b) == RecsFrom(b, 1, <<>>)
Rec(t, d, p) == B16(Len(p) + 4) \o <<t, d>> \o p
Bytes(R) == Flat([i \in 1..Len(R) |-> Rec(R[i].t, R[i].d, R[i].p)])

HEADER == 0  BGNLIB == 1  LIBNAME == 2  UNITS == 3  ENDLIB == 4  BGNSTR == 5  STRNAME == 6  ENDSTR == 7
BOUNDARY == 8  PATH == 9  SREF == 10  AREF == 11  TEXT == 12  LAYER == 13  DATATYPE == 14  WIDTH == 15
XY == 16  ENDEL == 17  SNAME == 18  COLROW == 19  NODE == 21  TEXTTYPE == 22  PRESENTATION == 23
CHARS == 25  STRANS == 26  MAGN == 27  ANGLE == 28  REFLIBS == 31  FONTS == 32  PATHTYPE == 33
GENERATIONS == 34  ATTRTABLE == 35  ELFLAGS == 38  NODETYPE == 42  PROPATTR == 43  PROPVALUE == 44
BOX == 45  BOXTYPE == 46  PLEX == 47  BGNEXTN == 48  ENDEXTN == 49  STRCLASS == 52  FORMAT == 54

\* data type and length (-1: any, -8: positive multiple of eight) of every record
Form ==
  (HEADER :> <<2, 2>>) @@ (BGNLIB :> <<2, 24>>) @@ (LIBNAME :> <<6, -1>>) @@ (UNITS :> <<5, 16>>) @@ (ENDLIB :> <<0, 0>>)
  @@ (BGNSTR :> <<2, 24>>) @@ (STRNAME :> <<6, -1>>) @@ (ENDSTR :> <<0, 0>>) @@ (BOUNDARY :> <<0, 0>>) @@ (PATH :> <<0, 0>>)
  @@ (SREF :> <<0, 0>>) @@ (AREF :> <<0, 0>>) @@ (TEXT :> <<0, 0>>) @@ (LAYER :> <<2, 2>>) @@ (DATATYPE :> <<2, 2>>)
  @@ (WIDTH :> <<3, 4>>) @@ (XY :> <<3, -8>>) @@ (ENDEL :> <<0, 0>>) @@ (SNAME :> <<6, -1>>) @@ (COLROW :> <<2, 4>>)
  @@ (NODE :> <<0, 0>>) @@ (TEXTTYPE :> <<2, 2>>) @@ (PRESENTATION :> <<1, 2>>) @@ (CHARS :> <<6, -1>>)
  @@ (STRANS :> <<1, 2>>) @@ (MAGN :> <<5, 8>>) @@ (ANGLE :> <<5, 8>>) @@ (REFLIBS :> <<6, 90>>) @@ (FONTS :> <<6, 176>>)
  @@ (PATHTYPE :> <<2, 2>>) @@ (GENERATIONS :> <<2, 2>>) @@ (ATTRTABLE :> <<6, 44>>) @@ (ELFLAGS :> <<1, 2>>)
  @@ (NODETYPE :> <<2, 2>>) @@ (PROPATTR :> <<2, 2>>) @@ (PROPVALUE :> <<6, -1>>) @@ (BOX :> <<0, 0>>) @@ (BOXTYPE :> <<2, 2>>)
  @@ (PLEX :> <<3, 4>>) @@ (BGNEXTN :> <<3, 4>>) @@ (ENDEXTN :> <<3, 4>>) @@ (STRCLASS :> <<1, 2>>) @@ (FORMAT :> <<2, 2>>)
WellFormed(r) ==
  /\ r.t \in DOMAIN Form
  /\ r.d = Form[r.t][1]
  /\ CASE Form[r.t][2] = -1 -> TRUE
       [] Form[r.t][2] = -8 -> Len(r.p) > 0 /\ Len(r.p) % 8 = 0
       [] OTHER -> Len(r.p) = Form[r.t][2]

(* ---- grammar ------------------------------------------------------------ *)
\* consumes records R[i...] along the slots <<type, "1"|"?"|"+"|"*">>
NoRecs == [x \in {} |-> <<>>]
Has(f, t) == t \in DOMAIN f
RECURSIVE Slots(_, _, _, _)
Slots(R, i, sl, f) ==
  IF sl = <<>> THEN [ok |-> TRUE, i |-> i, f |-> f]
  ELSE LET s == Head(sl)
           hit == i <= Len(R) /\ R[i].t = s[1]
       IN IF hit /\ ~WellFormed(R[i]) THEN [ok |-> FALSE, i |-> i, f |-> f]
          ELSE IF hit
          THEN Slots(R, i + 1, IF s[2] \in {"+", "*"} THEN << <<s[1], "*">> >> \o Tail(sl) ELSE Tail(sl),
                     (s[1] :> (IF Has(f, s[1]) THEN f[s[1]] \o R[i].p ELSE R[i].p)) @@ f)
          ELSE IF s[2] \in {"?", "*"} THEN Slots(R, i, Tail(sl), f)
          ELSE [ok |-> FALSE, i |-> i, f |-> f]

Trans == << <<STRANS, "?">>, <<MAGN, "?">>, <<ANGLE, "?">> >>
Opening == << <<ELFLAGS, "?">>, <<PLEX, "?">> >>
Body(t) ==
  CASE t = BOUNDARY -> Opening \o << <<LAYER, "1">>, <<DATATYPE, "1">>, <<XY, "+">> >>
    [] t = PATH -> Opening \o << <<LAYER, "1">>, <<DATATYPE, "1">>, <<PATHTYPE, "?">>, <<WIDTH, "?">>,
                                 <<BGNEXTN, "?">>, <<ENDEXTN, "?">>, <<XY, "+">> >>
    [] t = SREF -> Opening \o << <<SNAME, "1">> >> \o Trans \o << <<XY, "1">> >>
    [] t = AREF -> Opening \o << <<SNAME, "1">> >> \o Trans \o << <<COLROW, "1">>, <<XY, "1">> >>
    [] t = TEXT -> Opening \o << <<LAYER, "1">>, <<TEXTTYPE, "1">>, <<PRESENTATION, "?">>, <<PATHTYPE, "?">>, <<WIDTH, "?">> >>
                   \o Trans \o << <<XY, "1">>, <<CHARS, "1">> >>
    [] t = NODE -> Opening \o << <<LAYER, "1">>, <<NODETYPE, "1">>, <<XY, "1">> >>
    [] t = BOX -> Opening \o << <<LAYER, "1">>, <<BOXTYPE, "1">>, <<XY, "1">> >>
Kinds == {BOUNDARY, PATH, SREF, AREF, TEXT, NODE, BOX}

RECURSIVE PropsFrom(_, _, _)
PropsFrom(R, i, acc) ==
  IF i + 1 <= Len(R) /\ R[i].t = PROPATTR
  THEN IF WellFormed(R[i]) /\ R[i + 1].t = PROPVALUE /\ WellFormed(R[i + 1])
       THEN PropsFrom(R, i + 2, Append(acc, <<S16(R[i].p, 1), R[i + 1].p>>))
       ELSE [ok |-> FALSE, i |-> i, v |-> acc]
  ELSE [ok |-> TRUE, i |-> i, v |-> acc]

\* strings lose one byte of padding
Str(p) == IF Len(p) > 0 /\ p[Len(p)] = 0 THEN SubSeq(p, 1, Len(p) - 1) ELSE p
Pts(p) == [i \in 1..(Len(p) \div 8) |-> <<S32(p, 8 * i - 7), S32(p, 8 * i - 3)>>]
Short(f, t, dflt) == IF Has(f, t) THEN S16(f[t], 1) ELSE dflt
Long(f, t, dflt) == IF Has(f, t) THEN S32(f[t], 1) ELSE dflt
Mirrored(f) == Has(f, STRANS) /\ f[STRANS][1] >= 128
TheMag(f) == IF Has(f, MAGN) THEN Real(f[MAGN], 1) ELSE UNITY
TheAngle(f) == IF Has(f, ANGLE) THEN Real(f[ANGLE], 1) ELSE ZERO

\* the last value given for an attribute counts
LastProps(pr) == {pr[i] : i \in {j \in 1..Len(pr) : \A k \in (j + 1)..Len(pr) : pr[k][1] # pr[j][1]}}
Props(pr) == LastProps([i \in 1..Len(pr) |-> <<pr[i][1], Str(pr[i][2])>>])

Sensible(t, f) ==
  LET n == Len(f[XY]) \div 8 IN
  /\ (Has(f, MAGN) \/ Has(f, ANGLE)) => Has(f, STRANS)
  /\ CASE t = BOUNDARY -> n >= 4 /\ SubSeq(f[XY], 1, 8) = SubSeq(f[XY], Len(f[XY]) - 7, Len(f[XY]))
       [] t = PATH -> /\ n >= 2 /\ Short(f, PATHTYPE, 0) \in {0, 1, 2, 4}
                      /\ (Has(f, BGNEXTN) \/ Has(f, ENDEXTN)) => Short(f, PATHTYPE, 0) = 4
       [] t = SREF -> n = 1
       [] t = AREF -> n = 3 /\ S16(f[COLROW], 1) > 0 /\ S16(f[COLROW], 3) > 0
       [] t = TEXT -> n = 1
       [] t = NODE -> n >= 1
       [] t = BOX -> n = 5 /\ SubSeq(f[XY], 1, 8) = SubSeq(f[XY], 33, 40)

Describe(t, f, pr) ==
  LET g == Pts(f[XY]) IN
  CASE t \in {BOUNDARY, BOX} ->
         [k |-> IF t = BOX THEN "box" ELSE "boundary", l |-> S16(f[LAYER], 1),
          d |-> S16(f[IF t = BOX THEN BOXTYPE ELSE DATATYPE], 1), g |-> SubSeq(g, 1, Len(g) - 1), pr |-> Props(pr)]
    [] t = PATH ->
         [k |-> "path", l |-> S16(f[LAYER], 1), d |-> S16(f[DATATYPE], 1), pt |-> Short(f, PATHTYPE, 0),
          w |-> Long(f, WIDTH, 0), b |-> Long(f, BGNEXTN, 0), e |-> Long(f, ENDEXTN, 0), g |-> g, pr |-> Props(pr)]
    [] t = SREF ->
         [k |-> "sref", n |-> Str(f[SNAME]), xr |-> Mirrored(f), m |-> TheMag(f), a |-> TheAngle(f), p |-> g[1], pr |-> Props(pr)]
    [] t = AREF ->
         [k |-> "aref", n |-> Str(f[SNAME]), xr |-> Mirrored(f), m |-> TheMag(f), a |-> TheAngle(f), g |-> g,
          co |-> S16(f[COLROW], 1), ro |-> S16(f[COLROW], 3), pr |-> Props(pr)]
    [] t = TEXT ->
         [k |-> "text", l |-> S16(f[LAYER], 1), tt |-> S16(f[TEXTTYPE], 1),
          an |-> IF Has(f, PRESENTATION) THEN f[PRESENTATION][2] % 16 ELSE 5,   \* the format is silent: the default of labels
          xr |-> Mirrored(f), m |-> TheMag(f), a |-> TheAngle(f), p |-> g[1], s |-> Str(f[CHARS]), pr |-> Props(pr)]
    [] t = NODE -> [k |-> "node"]

Element(R, i) ==
  IF ~(i <= Len(R) /\ R[i].t \in Kinds /\ WellFormed(R[i])) THEN [ok |-> FALSE, i |-> i, e |-> <<>>]
  ELSE LET s == Slots(R, i + 1, Body(R[i].t), NoRecs) IN
       IF ~s.ok THEN [ok |-> FALSE, i |-> s.i, e |-> <<>>]
       ELSE LET q == PropsFrom(R, s.i, <<>>) IN
            IF ~(q.ok /\ q.i <= Len(R) /\ R[q.i].t = ENDEL /\ WellFormed(R[q.i]) /\ Sensible(R[i].t, s.f))
            THEN [ok |-> FALSE, i |-> q.i, e |-> <<>>]
            ELSE [ok |-> TRUE, i |-> q.i + 1, e |-> Describe(R[i].t, s.f, q.v)]

RECURSIVE Elements(_, _, _)
Elements(R, i, acc) ==
  IF i <= Len(R) /\ R[i].t = ENDSTR /\ WellFormed(R[i]) THEN [ok |-> TRUE, i |-> i, v |-> acc]
  ELSE LET x == Element(R, i) IN
       IF ~x.ok THEN [ok |-> FALSE, i |-> x.i, v |-> acc]
       ELSE Elements(R, x.i, Append(acc, x.e))

RECURSIVE Structures(_, _, _)
Structures(R, i, acc) ==
  IF i <= Len(R) /\ R[i].t = BGNSTR
  THEN LET s == Slots(R, i, << <<BGNSTR, "1">>, <<STRNAME, "1">>, <<STRCLASS, "?">> >>, NoRecs) IN
       IF ~s.ok THEN [ok |-> FALSE, i |-> s.i, v |-> acc]
       ELSE LET x == Elements(R, s.i, <<>>) IN
            IF ~x.ok THEN [ok |-> FALSE, i |-> x.i, v |-> acc]
            ELSE Structures(R, x.i + 1, Append(acc,
                   [name |-> Str(s.f[STRNAME]), ts |-> s.f[BGNSTR], els |-> x.v, from |-> i, to |-> x.i]))
  ELSE [ok |-> TRUE, i |-> i, v |-> acc]

\* [ok, i (record where it stops being legal), name, ts, units, cells]
Library(R) ==
  LET h == Slots(R, 1, << <<HEADER, "1">>, <<BGNLIB, "1">>, <<LIBNAME, "1">>, <<REFLIBS, "?">>, <<FONTS, "?">>,
                          <<ATTRTABLE, "?">>, <<GENERATIONS, "?">>, <<FORMAT, "?">>, <<UNITS, "1">> >>, NoRecs)
      bad(i) == [ok |-> FALSE, i |-> i, name |-> <<>>, ts |-> <<>>, user |-> ZERO, meters |-> ZERO, cells |-> <<>>]
  IN IF ~h.ok THEN bad(h.i)
     ELSE LET s == Structures(R, h.i, <<>>) IN
          IF ~(s.ok /\ s.i = Len(R) /\ R[s.i].t = ENDLIB /\ WellFormed(R[s.i])) THEN bad(s.i)
          ELSE [ok |-> TRUE, i |-> s.i, name |-> Str(h.f[LIBNAME]), ts |-> h.f[BGNLIB],
                user |-> Real(h.f[UNITS], 1), meters |-> Real(h.f[UNITS], 9), cells |-> s.v]
Decode(b) == Library(Records(b))

\* trailing padding with zeros (to fill a block) is legal
RECURSIVE Trim(_)
Trim(b) == LET R == Records(b) IN
  IF R # <<>> /\ R[Len(R)].t = -1 /\ \A i \in R[Len(R)].i..Len(b) : b[i] = 0 THEN SubSeq(b, 1, R[Len(R)].i - 1) ELSE b

(* ---- binary cells, timestamps, contents -------------------------------- *)
StructBytes(b) ==
  LET R == Records(b) L == Library(R) IN
  [c \in 1..Len(L.cells) |->
     [name |-> L.cells[c].name, bytes |-> SubSeq(b, R[L.cells[c].from].i, R[L.cells[c].to].i + 3)]]
Stamp(ts) == LET h == Flat(Map(B16, ts)) IN h \o h
Stamped(b, ts) ==
  LET R == Records(b) IN
  Bytes([i \in 1..Len(R) |-> IF R[i].t \in {BGNLIB, BGNSTR} THEN [R[i] EXCEPT !.p = Stamp(ts)] ELSE R[i]])
\* the structures without their timestamps
Contents(b) == BagOf(Map(LAMBDA c : SubSeq(c.bytes, 29, Len(c.bytes)), StructBytes(b)))

(* ---- what a layout must be written as ----------------------------------- *)
\* Layouts are described in quarters of the database unit; none is a tie.
Near(k) == (k + 2) \div 4
NearP(p) == <<Near(p[1]), Near(p[2])>>
NearG(g) == Map(NearP, g)
StraightenOpen(g) ==
  LET n == Len(g)
      idx == SelectSeq([i \in 1..n |-> i], LAMBDA i : i = 1 \/ i = n \/ ~Middle(g[i - 1], g[i], g[i + 1]))
  IN [i \in 1..Len(idx) |-> g[idx[i]]]
SideOf(e) == IF e.typ = "flex" THEN 1 ELSE -1
Spine(e, i) == [j \in 1..Len(e.sp) |-> SideAt(e.sp, j, SideOf(e) * e.os[i], 0, 0)]
PairSet(pr) == SetOf(pr)
\* (large polygons are compared as they are)
CanonS(g) == IF Len(g) > 300 THEN g ELSE Canon(g)
EndCode == [flush |-> 0, round |-> 1, extended |-> 2, custom |-> 4]
Corner(e, cx, cy) == LET v == Rot(Flip(<<e.co * e.sx * cx, e.ro * e.sy * cy>>, e.xr), e.q, e.th) IN <<e.x + v[1], e.y + v[2]>>

Expected(e) ==
  CASE e.k = "poly" ->
         [i \in 1..Len(e.ps) |-> [k |-> "boundary", l |-> e.ls[i], d |-> e.ds[i], g |-> CanonS(NearG(e.ps[i])), pr |-> PairSet(e.pr)]]
    [] e.k = "path" /\ e.gp ->
         [i \in 1..Len(e.ws) |-> [k |-> "path", l |-> e.ls[i], d |-> e.ds[i], pt |-> EndCode[e.en[i]],
            w |-> (IF e.wt THEN 1 ELSE -1) * Near(e.ws[i]),
            b |-> IF e.en[i] = "custom" THEN Near(e.ex[i][1]) ELSE 0, e |-> IF e.en[i] = "custom" THEN Near(e.ex[i][2]) ELSE 0,
            g |-> StraightenOpen(NearG(Spine(e, i))), pr |-> PairSet(e.pr)]]
    [] e.k = "path" /\ ~e.gp ->
         [i \in 1..Len(e.ws) |-> [k |-> "boundary", l |-> e.ls[i], d |-> e.ds[i],
            g |-> Canon(NearG(Outline(e.sp, e.ws[i], SideOf(e) * e.os[i], e.ex[i][1], e.ex[i][2]))), pr |-> PairSet(e.pr)]]
    [] e.k = "label" ->
         << [k |-> "text", l |-> e.ly, tt |-> e.tt, an |-> e.an, xr |-> e.xr, m |-> e.m, a |-> e.a, p |-> NearP(<<e.x, e.y>>),
             s |-> e.s, pr |-> PairSet(e.pr)] >>
    [] e.k = "ref" /\ ~e.arr ->
         << [k |-> "sref", n |-> e.n, xr |-> e.xr, m |-> e.m, a |-> e.a, p |-> NearP(<<e.x, e.y>>), pr |-> PairSet(e.pr)] >>
    [] e.k = "ref" /\ e.arr ->
         << [k |-> "aref", n |-> e.n, xr |-> e.xr, m |-> e.m, a |-> e.a, co |-> e.co, ro |-> e.ro, pr |-> PairSet(e.pr),
             g |-> << NearP(<<e.x, e.y>>), NearP(Corner(e, 1, 0)), NearP(Corner(e, 0, 1)) >>] >>
Normal(e) ==
  CASE e.k = "boundary" -> [e EXCEPT !.g = CanonS(@)]
    [] e.k = "path" -> [e EXCEPT !.g = StraightenOpen(@)]
    [] OTHER -> e
CellOk(els, desc) == BagOf(Map(Normal, els)) = BagOf(Flat(Map(Expected, desc)))

(* ---- what a stream must be read as --------------------------------------- *)
\* o: [mode, user, pm, lu, rename, pre, post, layers, datatypes, texttypes]
\*   user: user unit per database unit in 1/10000; pm: database unit in pm;
\*   lu: unit of the library in pm.  Coordinates are reported in 1/10000.
Scale(o) ==
  IF o.mode # "convert" THEN o.user
  ELSE IF o.lu >= 10000 THEN o.pm \div (o.lu \div 10000) ELSE o.pm * (10000 \div o.lu)
MapOf(ps, v) == LET S == {i \in 1..Len(ps) : ps[i][1] = v} IN IF S = {} THEN v ELSE ps[CHOOSE i \in S : TRUE][2]
NameOf(o, n) ==
  LET S == {i \in 1..Len(o.rename) : o.rename[i][1] = n} IN
  IF S = {} THEN o.pre \o n \o o.post ELSE o.rename[CHOOSE i \in S : TRUE][2]
By(p, k) == <<p[1] * k, p[2] * k>>

\* inverse of the rotation given by an angle in the table angs
Unturn(angs, a, p) ==
  LET i == CHOOSE j \in 1..Len(angs) : angs[j].a = a
      v == RotT(p, -angs[i].th)
  IN RotQ(v, (4 - angs[i].q) % 4)
\* names: the cells the library has afterwards
ReadEl(o, e, angs, names) ==
  LET K == Scale(o) IN
  CASE e.k \in {"boundary", "box"} ->
         [k |-> "poly", g |-> Map(LAMBDA p : By(p, K), e.g), l |-> MapOf(o.layers, e.l), d |-> MapOf(o.datatypes, e.d), pr |-> e.pr]
    [] e.k = "path" ->
         [k |-> "path", g |-> Map(LAMBDA p : By(p, K), e.g), l |-> MapOf(o.layers, e.l), d |-> MapOf(o.datatypes, e.d),
          w |-> Abs(e.w) * K, wt |-> e.w >= 0,
          en |-> CASE e.pt = 0 -> <<0>> [] e.pt = 1 -> <<1>> [] e.pt = 2 -> <<2>> [] OTHER -> <<4, e.b * K, e.e * K>>,
          pr |-> e.pr]
    [] e.k = "text" ->
         [k |-> "label", s |-> e.s, p |-> By(e.p, K), an |-> e.an, l |-> MapOf(o.layers, e.l), tt |-> MapOf(o.texttypes, e.tt),
          xr |-> e.xr, m |-> e.m, a |-> e.a, pr |-> e.pr]
    [] e.k = "sref" ->
         [k |-> "ref", n |-> NameOf(o, e.n), res |-> NameOf(o, e.n) \in names, p |-> By(e.p, K), xr |-> e.xr, m |-> e.m, a |-> e.a, pr |-> e.pr]
    [] e.k = "aref" ->
         LET v1 == Unturn(angs, e.a, Plus(e.g[2], -e.g[1][1], -e.g[1][2]))
             v2 == Flip(Unturn(angs, e.a, Plus(e.g[3], -e.g[1][1], -e.g[1][2])), e.xr)
         IN [k |-> "array", n |-> NameOf(o, e.n), res |-> NameOf(o, e.n) \in names, p |-> By(e.g[1], K), xr |-> e.xr, m |-> e.m, a |-> e.a, pr |-> e.pr,
             co |-> e.co, ro |-> e.ro, sx |-> v1[1] * K, sy |-> v2[2] * K]
ReadCell(o, c, angs, names) ==
  [name |-> NameOf(o, c.name), els |-> BagOf(Map(LAMBDA e : ReadEl(o, e, angs, names), SelectSeq(c.els, LAMBDA e : e.k # "node")))]
=============================================================================
