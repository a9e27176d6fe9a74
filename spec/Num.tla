--------------------------------- MODULE Num ---------------------------------
(***************************************************************************)
(* Fixed-point arithmetic for histories with arbitrary angles.             *)
(*                                                                         *)
(* A coordinate counts 1/100000 of a unit (layouts stay within +-100       *)
(* units); a direction is a pair <<cos, sin>> counting 1/1000000.  Results *)
(* are compared with a tolerance of a few counts, and every step starts    *)
(* from what was observed after the previous one, so that rounding does    *)
(* not accumulate.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

U == 100000
E6 == 1000000
NONE == 1999999999

SetOf(s) == {s[i] : i \in 1..Len(s)}
Map(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
Flat(ss) == FlattenSeq(ss)
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Cyc(s, i) == s[((i - 1) % Len(s)) + 1]

\* a*b/10^6 without large intermediate numbers (to one count)
Mul6(a, b) ==
  LET a1 == a \div 1000  a0 == a % 1000  b1 == b \div 1000  b0 == b % 1000
  IN a1 * b1 + (a1 * b0 + a0 * b1 + ((a0 * b0 + 500) \div 1000) + 500) \div 1000
\* rounded a*n/d, n*a within 32 bits
Ratio(a, n, d) == ((2 * (a * n)) + d) \div (2 * d)

Add(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Times6(k, e) == <<Mul6(k, e[1]), Mul6(k, e[2])>>
\* p turned by the direction e; e turned by a right angle
Rot6(p, e) == <<Mul6(p[1], e[1]) - Mul6(p[2], e[2]), Mul6(p[1], e[2]) + Mul6(p[2], e[1])>>
LeftOf(e) == <<-e[2], e[1]>>
RightOf(e) == <<e[2], -e[1]>>

Near(a, b, T) == Abs(a - b) <= T
NearP(p, q, T) == Near(p[1], q[1], T) /\ Near(p[2], q[2], T)
NearS(f, g, T) == Len(f) = Len(g) /\ \A i \in 1..Len(f) : NearP(f[i], g[i], T)
\* polygons up to starting point and direction
NearG(f, g, T) ==
  LET n == Len(f) IN
  /\ n = Len(g)
  /\ \/ NearS(f, g, T)
     \/ \E k \in 0..(n - 1) :
          \/ \A i \in 1..n : NearP(f[i], g[((i - 1 + k) % n) + 1], T)
          \/ \A i \in 1..n : NearP(f[i], g[((n + k - i) % n) + 1], T)
\* bags of things that are near each other
SameBag(a0, b0, Like(_, _)) ==
  LET RECURSIVE go(_, _)
      go(a, b) ==
        IF a = <<>> THEN TRUE
        ELSE IF Like(Head(a), Head(b)) THEN go(Tail(a), Tail(b))
        ELSE LET s == {i \in 1..Len(b) : Like(Head(a), b[i])} IN
             IF s = {} THEN FALSE
             ELSE LET i == CHOOSE i \in s : TRUE IN go(Tail(a), RemoveAt(b, i))
  IN Len(a0) = Len(b0) /\ go(a0, b0)

(* ---- areas and boxes -------------------------------------------------- *)
Nx(g, i) == g[IF i = Len(g) THEN 1 ELSE i + 1]
RECURSIVE Shoe(_, _, _)
Shoe(g, i, acc) ==
  IF i > Len(g) THEN acc
  ELSE LET a == Sub(g[i], g[1]) b == Sub(Nx(g, i), g[1])
       IN Shoe(g, i + 1, acc + Mul6(a[1], b[2]) - Mul6(a[2], b[1]))
\* twice the area, in 1/10000 of a square unit
Area2(g) == Abs(Shoe(g, 1, 0))
Around(gs) ==
  LET xs == UNION {{p[1] : p \in SetOf(g)} : g \in SetOf(gs)}
      ys == UNION {{p[2] : p \in SetOf(g)} : g \in SetOf(gs)}
      mn(S) == CHOOSE v \in S : \A w \in S : v <= w
      mx(S) == CHOOSE v \in S : \A w \in S : v >= w
  IN IF xs = {} THEN <<>> ELSE <<mn(xs), mn(ys), mx(xs), mx(ys)>>
Finite(gs) == \A g \in SetOf(gs) : \A p \in SetOf(g) : p[1] # NONE /\ p[2] # NONE

(* ---- points in polygons (coordinates up to 20000) ----------------------- *)
Turning(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (p[1] - a[1]) * (b[2] - a[2])
Wind(g, p) ==
    Cardinality({i \in 1..Len(g) : LET a == g[i] b == Nx(g, i) IN a[2] <= p[2] /\ b[2] > p[2] /\ Turning(a, b, p) > 0})
  - Cardinality({i \in 1..Len(g) : LET a == g[i] b == Nx(g, i) IN a[2] > p[2] /\ b[2] <= p[2] /\ Turning(a, b, p) < 0})
=============================================================================
