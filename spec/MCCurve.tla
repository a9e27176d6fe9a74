-------------------------------- MODULE MCCurve --------------------------------
(***************************************************************************)
(* Every sequence (up to Depth) of commands from a small repertoire.  TLC  *)
(* checks what the specification relies on: sections follow each other,    *)
(* relative commands are absolute ones moved to the end of the curve, one  *)
(* command with several sections is as good as several commands, smooth    *)
(* commands continue in the direction of the section before, and reflect   *)
(* nothing after commands of another kind.  The sequences are emitted and  *)
(* replayed into the library.                                              *)
(***************************************************************************)
EXTENDS Curve, Json

CONSTANTS EMIT, Depth
VARIABLES st, seq, before
vars == <<st, seq, before>>

A == <<U, 0>>
B == <<U, 2 * U>>
C == <<-U, U>>
D == <<3 * U, -U>>
Cmd(c, ps) == [op |-> "cmd", cmd |-> c, ps |-> ps]
Axis(c, xs) == [op |-> "cmd", cmd |-> c, xs |-> xs]
Bigs == {Cmd("L", <<A>>), Cmd("L", <<B, C>>), Cmd("C", <<A, B, C>>), Cmd("C", <<A, B, C, D, A, B>>),
         Cmd("S", <<B, D>>), Cmd("S", <<C, A, B, D>>), Cmd("Q", <<C, D>>), Cmd("Q", <<A, B, C, D>>),
         Cmd("T", <<B>>), Cmd("T", <<C, D>>), Cmd("B", <<D>>), Cmd("B", <<D, B>>), Cmd("B", <<A, B, C, D>>)}
Low == [L |-> "l", C |-> "c", S |-> "s", Q |-> "q", T |-> "t", B |-> "b"]
Cmds == Bigs \cup {Cmd(Low[e.cmd], e.ps) : e \in Bigs}
        \cup {Axis(c, xs) : c \in {"H", "h", "V", "v"}, xs \in {<<U>>, <<2 * U, -U>>}}

\* what the specification draws: eight chords for every curved section
Us == [i \in 1..8 |-> i * 125000]
Drawn(s, e) == IF Straight(e.cmd) THEN Lines(s, e)
               ELSE Flat([i \in 1..Len(BeziersOf(s, e)) |-> [k \in 1..8 |-> At(BeziersOf(s, e)[i], Us[k])]])
Event(s, e) == [op |-> "cmd", cmd |-> e.cmd, ps |-> IF Curved(e.cmd) THEN e.ps ELSE IF e.cmd \in {"L", "l"} THEN e.ps ELSE <<>>,
                xs |-> IF e.cmd \in {"H", "h", "V", "v"} THEN e.xs ELSE <<>>, tol |-> 14000,
                us |-> IF Curved(e.cmd) THEN [i \in 1..Len(BeziersOf(s, e)) |-> Us] ELSE <<>>,
                ret |-> [exc |-> "", same |-> TRUE, pts |-> s.pts \o Drawn(s, e)]]
Do(s, e) == After(s, Event(s, e))

Init == st = Start(<<U, U>>) /\ before = Start(<<U, U>>) /\ seq = <<>>
Next == /\ Len(seq) < Depth
        /\ Abs(End(st)[1]) < 12 * U /\ Abs(End(st)[2]) < 12 * U
        /\ \E e \in Cmds : /\ st' = Do(st, e)
                           /\ before' = st
                           /\ seq' = Append(seq, e)
Spec == Init /\ [][Next]_vars

(* ---- laws ------------------------------------------------------------------ *)
LastCmd == seq[Len(seq)]
\* sections follow each other without a gap, from the end of the curve
Chained == seq # <<>> /\ Curved(LastCmd.cmd) =>
  LET gs == BeziersOf(before, LastCmd) IN
  /\ gs[1][1] = End(before)
  /\ \A i \in 1..(Len(gs) - 1) : gs[i + 1][1] = gs[i][Len(gs[i])]
  /\ gs[Len(gs)][Len(gs[Len(gs)])] = End(st)
  /\ End(st) = Given(before, LastCmd)[Len(LastCmd.ps)]
\* relative commands are absolute ones, moved
Relative == seq # <<>> /\ LastCmd.cmd \in {Low[k] : k \in DOMAIN Low} =>
  LET up == CHOOSE k \in DOMAIN Low : Low[k] = LastCmd.cmd
  IN st = Do(before, Cmd(up, Shift(End(before), LastCmd.ps)))
\* several sections at once or one by one
Count(c) == CASE c \in {"C"} -> 3 [] c \in {"S", "Q"} -> 2 [] c \in {"T", "L"} -> 1 [] OTHER -> 0
OneByOne == seq # <<>> /\ LastCmd.cmd \in {"C", "S", "Q", "T", "L"} =>
  LET k == Count(LastCmd.cmd) IN
  Len(LastCmd.ps) > k =>
    st = Do(Do(before, Cmd(LastCmd.cmd, SubSeq(LastCmd.ps, 1, k))), Cmd(LastCmd.cmd, SubSeq(LastCmd.ps, k + 1, Len(LastCmd.ps))))
\* smooth commands
Smooth == seq # <<>> /\ LastCmd.cmd \in {"S", "s", "T", "t"} =>
  LET g == BeziersOf(before, LastCmd)[1]
      r == IF LastCmd.cmd \in {"S", "s"} THEN before.c ELSE before.q
      prev == IF Len(seq) = 1 THEN "" ELSE seq[Len(seq) - 1].cmd
      kin == IF LastCmd.cmd \in {"S", "s"} THEN {"C", "c", "S", "s"} ELSE {"Q", "q", "T", "t"}
  IN /\ (r # <<>>) <=> prev \in kin
     /\ r = <<>> => g[2] = g[1]
     /\ r # <<>> => Sub(g[2], g[1]) = Sub(g[1], r)
\* the clauses accept this and nothing beside it
Moved(ps, i) == [ps EXCEPT ![i] = <<@[1] + 500, @[2]>>]
Accepts == seq # <<>> =>
  LET e == Event(before, LastCmd)
      n == Len(before.pts) m == Len(e.ret.pts)
  IN /\ CmdClause(before, e) = ""
     /\ \A i \in 1..m : CmdClause(before, [e EXCEPT !.ret.pts = Moved(@, i)]) # ""
     /\ CmdClause(before, [e EXCEPT !.ret.pts = SubSeq(@, 1, m - 1)]) # ""
     /\ CmdClause(before, [e EXCEPT !.ret.pts = Append(@, @[m])]) # ""
     \* a smooth command that forgot, or reflected something else
     /\ LastCmd.cmd \in {"S", "s", "T", "t"} =>
          LET w == [before EXCEPT !.c = <<5 * U, 4 * U>>, !.q = <<5 * U, 4 * U>>] IN
          CmdClause(before, Event(w, LastCmd)) # ""
Emit == EMIT /\ Len(seq') = Depth => PrintT("EMIT " \o ToJson(seq'))
=============================================================================
