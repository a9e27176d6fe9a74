------------------------------ MODULE MCViewer ------------------------------
(* Exhaustive exploration of the viewer on a small layout, and the          *)
(* generator of the sequences of user actions replayed into the real one.   *)
EXTENDS Viewer, Json
CONSTANTS Depth, Emitting
VARIABLES vw, old, seq
vars == <<vw, old, seq>>

Square(x) == << <<x, 0>>, <<x + 4, 0>>, <<x + 4, 3>>, <<x, 3>> >>
Build == <<
  [op |-> "cell", name |-> "A"], [op |-> "cell", name |-> "B"], [op |-> "cell", name |-> "E"],
  [op |-> "poly", c |-> 1, pr |-> "", form |-> "list", ps |-> <<Square(0), Square(2)>>, ls |-> <<1, 2>>, ds |-> <<0, 3>>],
  [op |-> "label", c |-> 1, pr |-> "", form |-> "one", t |-> "T", x |-> 3, y |-> 1, an |-> "sw", ly |-> 5, tt |-> 3,
   q |-> 1, th |-> 0, m |-> 128, xr |-> TRUE],
  [op |-> "poly", c |-> 2, pr |-> "", form |-> "one", ps |-> << << <<-4, -2>>, <<-1, -2>>, <<-4, 6>> >> >>, ls |-> <<2>>, ds |-> <<0>>],
  [op |-> "ref", c |-> 2, o |-> 1, n |-> "", x |-> 10, y |-> -6, q |-> 1, th |-> 1, m |-> 64, xr |-> TRUE, arr |-> FALSE,
   co |-> 1, ro |-> 1, sx |-> 0, sy |-> 0, pr |-> "", form |-> "one"] >>
St == FoldLeft(LAMBDA s, e : Apply(s, e), InitHier, Build)

Opening(d, hid) ==
  [op |-> "open", names |-> <<"B", "A", "E">>, form |-> "lib", hidarg |-> IF hid = <<>> THEN "none" ELSE "list", hid |-> hid,
   depth |-> d, cols |-> << [k |-> "1/0", v |-> "#112233"] >>, pats |-> << [k |-> "2/0", v |-> 4] >>, bg |-> "#202020", w |-> 800, h |-> 600]
Openings == {Opening(0, <<>>), Opening(1, <<"2/0">>), Opening(1, <<>>), Opening(-1, <<>>)}

Listed == Map(NameOf, vw.order)
Rng(a, b) == <<a, b>>
Filters == { << << <<Rng(1, 2)>>, <<Rng(-1, -1)>> >> >>, << << <<Rng(2, 2)>>, <<Rng(0, 1), Rng(3, 3)>> >>, << <<Rng(5, 5)>>, <<Rng(-1, -1)>> >> >> }
Acts ==
  {[op |-> "cell", n |-> n] : n \in {"A", "B", "E"}}
  \cup {[op |-> "depth", v |-> d, ok |-> TRUE, text |-> ToString(d), how |-> "spin"] : d \in {-1, 0, 1}}
  \cup {[op |-> o, k |-> k] : o \in {"toggle", "raise", "lower"}, k \in SetOf(Listed)}
  \cup {[op |-> "others", k |-> k, how |-> "<Button-3>"] : k \in SetOf(Listed)}
  \cup {[op |-> "color", k |-> k, v |-> "#00ff00"] : k \in SetOf(Listed)}
  \cup {[op |-> "filter", f |-> f, bad |-> FALSE, how |-> "OK", text |-> ""] : f \in Filters}
  \cup {[op |-> "home", how |-> "button"], [op |-> "in"], [op |-> "depth", v |-> 0, ok |-> FALSE, text |-> "x", how |-> "focus"]}

(* ---- a canvas that shows what it should ----------------------------------- *)
ColorOf(v, k) == IF Known(v.col, k) THEN Value(v.col, k) ELSE IF v.dcol # "" THEN v.dcol ELSE "auto" \o k
PatOf(v, k) == IF Known(v.pat, k) THEN Value(v.pat, k) ELSE IF v.dpat >= 0 THEN v.dpat ELSE 7
ItemOf(v, k, key, g, t, an) ==
  [k |-> k, key |-> key, g |-> g, t |-> t, an |-> an, fill |-> ColorOf(v, key), out |-> IF k = "text" THEN "" ELSE ColorOf(v, key),
   pat |-> IF k = "text" THEN -1 ELSE PatOf(v, key), vis |-> key \notin v.hid, tag |-> ""]
Drawing(v) ==
  LET ps == Polys(St, v) ts == Texts(St, v) line == Outline_(v.bg) IN
  [items |->
     Flat([i \in 1..Len(v.order) |->
        LET k == NameOf(v.order[i]) IN
        Map(LAMBDA p : ItemOf(v, "polygon", k, p.g, "", ""), SelectSeq(ps, LAMBDA p : p.k = k))
        \o Map(LAMBDA b : ItemOf(v, "text", k, << <<b.x, b.y>> >>, b.t, AnchorOf(b.an)), SelectSeq(ts, LAMBDA b : NameOf(<<b.ly, b.tt>>) = k))])
     \o Flat(Map(LAMBDA p :
          << [ItemOf(v, "polygon", p.k, p.g, "", "") EXCEPT !.fill = "", !.out = line, !.pat = -1],
             [ItemOf(v, "text", p.k, << <<Mean(p.g, 1), Mean(p.g, 2)>> >>, v.cell, "center") EXCEPT !.fill = line, !.t = IF p.k = "@A" THEN "A" ELSE "B"] >>,
          SelectSeq(ps, LAMBDA p : p.l < 0))),
   rows |-> [i \in 1..Len(v.order) |->
      LET k == NameOf(v.order[i]) IN
      [key |-> k, icon |-> ColorOf(v, k), pat |-> PatOf(v, k), fg |-> IF k \in v.hid THEN Grey(v.bg) ELSE Outline_(v.bg)]],
   extra |-> IF v.ruler.on THEN <<"line">> ELSE <<>>, cell |-> v.cell, bg |-> v.bg]

Init == \E o \in Openings : seq = <<o>> /\ vw = Open(St, o) /\ old = vw
Next == Len(seq) <= Depth /\ \E e \in Acts :
  /\ seq' = Append(seq, e)
  /\ old' = vw
  /\ vw' = Learn(Acted(St, vw, e), Drawing(Acted(St, vw, e)))
Spec == Init /\ [][Next]_vars

Last_ == seq[Len(seq)]
Ordered == /\ SetOf(vw.order) = LayersOf(St, vw) /\ Len(vw.order) = Cardinality(SetOf(vw.order))
Accepted == Shown(St, vw, Drawing(vw)) = ""
\* and nothing else: one thing wrong is noticed
Spoilt(r) ==
  UNION {{[r EXCEPT !.items[i].vis = ~@], [r EXCEPT !.items[i].g[1] = <<@[1] + 1000, @[2]>>], [r EXCEPT !.items[i].fill = "wrong"],
          [r EXCEPT !.items = Append(@, @[i])],
          [r EXCEPT !.items[i].key = IF @ = "1/0" THEN "2/3" ELSE "1/0"]} : i \in 1..Len(r.items)}
  \cup {[r EXCEPT !.items = SubSeq(@, 2, Len(@))]}
  \cup UNION {{[r EXCEPT !.rows[i].fg = "wrong"], [r EXCEPT !.rows[i].key = "9/9"]} : i \in 1..Len(r.rows)}
  \cup {[r EXCEPT !.items = Swap(@, i, i + 1)] : i \in {j \in 1..(Len(r.items) - 1) : r.items[j].key # r.items[j + 1].key}}
Rejected == LET r == Drawing(vw) IN r.items # <<>> => \A x \in Spoilt(r) : x # r => Shown(St, vw, x) # ""
Steps == Len(seq) > 1 =>
  LET e == Last_ IN
  /\ e.op = "toggle" => vw.hid = (old.hid \ {e.k}) \cup ({e.k} \ old.hid)
  /\ e.op = "others" => /\ (e.k \in vw.hid) <=> (e.k \in old.hid)
                        /\ LET os == SetOf(Listed) \ {e.k} IN os \subseteq vw.hid \/ os \cap vw.hid = {}
  /\ e.op = "raise" => Acted(St, vw, [op |-> "lower", k |-> e.k]).order = IF At(old, e.k) = Len(old.order) THEN Acted(St, old, [op |-> "lower", k |-> e.k]).order ELSE old.order
  /\ e.op \notin {"cell", "depth", "open"} => Polys(St, vw) = Polys(St, old) /\ Texts(St, vw) = Texts(St, old)
  /\ e.op \in {"home", "in"} => vw.hid = old.hid
  /\ e.op = "home" => \A i, j \in 1..Len(vw.order) : i < j => Above(vw.order[i], vw.order[j])
Emit == Emitting /\ Len(seq') = Depth + 1 => PrintT("EMIT " \o ToJson([build |-> Build, ev |-> seq']))
=============================================================================
