------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* Physical quantities: a number with a unit stands for number * f + o in   *)
(* base units.  Numbers are exact rationals <<n, d>> in lowest terms.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a = 0 THEN 1 ELSE a) ELSE Gcd(b, a % b)
Norm(n, d) == LET s == IF d < 0 THEN -1 ELSE 1 g == Gcd(AbsI(n), AbsI(d)) IN <<s * (n \div g), s * (d \div g)>>
(* cancel before multiplying: TLC integers have 32 bits *)
RMul(a, b) == LET x == Norm(a[1], b[2]) y == Norm(b[1], a[2]) IN Norm(x[1] * y[1], x[2] * y[2])
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RLe(a, b) == RSub(a, b)[1] <= 0
RLt(a, b) == RSub(a, b)[1] < 0
I(n) == <<n, 1>>

(* dim: exponents of length, time, temperature *)
U(l, t, k, f, o) == [none |-> 0, dim |-> <<l, t, k>>, f |-> f, o |-> o]
NoUnit == [none |-> 1, dim |-> <<0, 0, 0>>, f |-> <<1, 1>>, o |-> <<0, 1>>]
Table == [
  m |-> U(1, 0, 0, <<1, 1>>, <<0, 1>>), km |-> U(1, 0, 0, <<1000, 1>>, <<0, 1>>), cm |-> U(1, 0, 0, <<1, 100>>, <<0, 1>>),
  ft |-> U(1, 0, 0, <<381, 1250>>, <<0, 1>>), tenm |-> U(1, 0, 0, <<10, 1>>, <<0, 1>>),
  s |-> U(0, 1, 0, <<1, 1>>, <<0, 1>>), ms |-> U(0, 1, 0, <<1, 1000>>, <<0, 1>>), min |-> U(0, 1, 0, <<60, 1>>, <<0, 1>>), h |-> U(0, 1, 0, <<3600, 1>>, <<0, 1>>),
  K |-> U(0, 0, 1, <<1, 1>>, <<0, 1>>), degC |-> U(0, 0, 1, <<1, 1>>, <<5463, 20>>), degF |-> U(0, 0, 1, <<5, 9>>, <<45967, 180>>),
  mps |-> U(1, -1, 0, <<1, 1>>, <<0, 1>>), kmph |-> U(1, -1, 0, <<5, 18>>, <<0, 1>>),
  Hz |-> U(0, -1, 0, <<1, 1>>, <<0, 1>>), strain |-> U(0, 0, 0, <<1, 1>>, <<0, 1>>), none |-> NoUnit]
Names == DOMAIN Table
Same(u, v) == u.dim = v.dim
Base(u, x) == RAdd(RMul(x, u.f), u.o)
FromBase(u, b) == RDiv(RSub(b, u.o), u.f)
Convert(u, v, x) == FromBase(v, Base(u, x))
BaseUnit(u) == [u EXCEPT !.f = <<1, 1>>, !.o = <<0, 1>>]
UMul(u, v) == [none |-> 0, dim |-> [i \in 1..3 |-> u.dim[i] + v.dim[i]], f |-> RMul(u.f, v.f), o |-> <<0, 1>>]
UInv(u) == [u EXCEPT !.dim = [i \in 1..3 |-> -u.dim[i]], !.f = RInv(u.f)]
Map(q, Op(_)) == [i \in 1..Len(q) |-> Op(q[i])]

(* a quantity: unit u, numbers raw and what they stand for *)
Q(u, raw) == [u |-> u, raw |-> raw, base |-> Map(raw, LAMBDA x : Base(u, x))]
SetQ(q, v) == Q(v, q.raw)
CanConvert(q, v) == q.u.none = 1 \/ (v.none = 0 /\ Same(q.u, v))
ConvQ(q, v) == IF q.u.none = 1 THEN SetQ(q, v) ELSE Q(v, Map(q.base, LAMBDA b : FromBase(v, b)))
SimpQ(q) == IF q.u.none = 1 THEN q ELSE ConvQ(q, BaseUnit(q.u))
=============================================================================
