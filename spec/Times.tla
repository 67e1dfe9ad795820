------------------------------- MODULE Times -------------------------------
(* Times, durations and numbers of seconds, exact to the nanosecond.         *)
(* An amount is <<days, seconds of the day, nanoseconds of the second>>, so  *)
(* that the whole range of 64 bit nanoseconds fits TLC's integers.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Day == 86400
Giga == 1000000000
Norm(d, s, n) ==
  LET s1 == s + (n \div Giga) n1 == n % Giga IN <<d + (s1 \div Day), s1 % Day, n1>>
TAdd(a, b) == Norm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
TNeg(a) == Norm(-a[1], -a[2], -a[3])
TLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
TLe(a, b) == ~TLt(b, a)
Zero == <<0, 0, 0>>
Whole(a) == a[3] = 0

(* A value has a kind: dt (instant), td (duration), num (seconds as a number), *)
(* ns (nanoseconds as an integer), null (missing: None, NaN, NaT, infinite).   *)
Null == [k |-> "null", v |-> Zero]
V(k, v) == [k |-> k, v |-> v]
IsNull(x) == x.k = "null"
(* Whole seconds towards zero *)
Trunc(a) == IF a[1] < 0 /\ a[3] > 0 THEN Norm(a[1], a[2] + 1, 0) ELSE <<a[1], a[2], 0>>

(* Which kinds a conversion takes. *)
Takes(f, k) == CASE f = "to_datetime64" -> k \in {"dt", "td", "num", "null"}
                 [] f = "to_timedelta64" -> k \in {"dt", "td", "num", "null"}
                 [] f = "to_int" -> k \in {"dt", "td", "num"}
                 [] f = "to_float" -> k \in {"dt", "td", "num", "null"}
Conv(f, x) ==
  IF IsNull(x) THEN Null
  ELSE CASE f = "to_datetime64" -> V("dt", x.v)
         [] f = "to_timedelta64" -> V("td", x.v)
         [] f = "to_float" -> V("num", x.v)
         [] f = "to_int" -> IF x.k = "num" THEN x ELSE V("ns", x.v)
(* single numbers (and series) are cut to integers, arrays of numbers stay as they are *)
Conv1(f, x) == IF f = "to_int" /\ x.k = "num" THEN V("num", Trunc(x.v)) ELSE Conv(f, x)
ConvAll(f, q) == [i \in 1..Len(q) |-> Conv(f, q[i])]

(* A range of times, where missing limits are open. *)
Range(lo, hi) == [lo |-> IF IsNull(lo) THEN Null ELSE V("dt", lo.v), hi |-> IF IsNull(hi) THEN Null ELSE V("dt", hi.v)]
RangeBad(lo, hi) == ~IsNull(lo) /\ ~IsNull(hi) /\ TLt(hi.v, lo.v)
=============================================================================
