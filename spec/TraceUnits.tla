----------------------------- MODULE TraceUnits -----------------------------
(* Verdicts for recorded unit operations on patches.                         *)
(* State: [d, x, n, m]: quantity of the data (row-major over x and y), of    *)
(* coordinate x, number of labels of x and of the other dimension.           *)
(* Trace line: [init, ev : Seq([o, err, obs, out])].                          *)
EXTENDS Units, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, st
tvars == <<t, l, st>>

(* (no unit and the dimensionless unit are the same (they are stored alike)) *)
Plain(u) == u.none = 1 \/ (u.dim = <<0, 0, 0>> /\ u.f = <<1, 1>> /\ u.o = <<0, 1>>)
SameU(u, v) == u = v \/ (Plain(u) /\ Plain(v))
Bad1(what, exp, obs) ==
    (IF ~SameU(exp.u, obs.u) THEN {what \o "-unit"} ELSE {})
    \cup (IF exp.base # obs.base THEN {what \o "-value"} ELSE {})
(* the unit of a computed quantity only has to be of the right kind *)
BadOp(exp, obs) ==
    (IF exp.u.dim # obs.u.dim THEN {"data-unit"} ELSE {})
    \cup (IF exp.base # obs.base THEN {"data-value"} ELSE {})
Same2(a, b) == Bad1("data", a.d, b.d) \cup Bad1("coord", a.x, b.x)
Ok(e) == e.err = ""
Raised(e) == {"raised:" \o e.err}
Expect(e, may, s) == IF ~Ok(e) THEN (IF may THEN {} ELSE Raised(e)) ELSE IF may THEN {"accepted"} ELSE Same2(s, e.obs)

Inside(x, lo, hi) == (lo = <<>> \/ RLe(lo[1], x)) /\ (hi = <<>> \/ RLe(x, hi[1]))
Keep(s, idx) ==
  [s EXCEPT !.x = [u |-> s.x.u, raw |-> [i \in 1..Len(idx) |-> s.x.raw[idx[i]]], base |-> [i \in 1..Len(idx) |-> s.x.base[idx[i]]]],
            !.d = [u |-> s.d.u, raw |-> [k \in 1..(Len(idx) * s.m) |-> s.d.raw[(idx[((k - 1) \div s.m) + 1] - 1) * s.m + ((k - 1) % s.m) + 1]],
                                base |-> [k \in 1..(Len(idx) * s.m) |-> s.d.base[(idx[((k - 1) \div s.m) + 1] - 1) * s.m + ((k - 1) % s.m) + 1]]],
            !.n = Len(idx)]
Bound(q) == IF q = <<>> THEN <<>> ELSE <<Base(Table[q[1].u], q[1].v)>>
Fun(f, a, b) == CASE f = "add" -> RAdd(a, b) [] f = "sub" -> RSub(a, b) [] f = "mul" -> RMul(a, b) [] f = "div" -> RDiv(a, b)
                  [] f = "gt" -> (IF RLt(b, a) THEN I(1) ELSE I(0)) [] f = "le" -> (IF RLe(a, b) THEN I(1) ELSE I(0))
ResUnit(f, u, v) == CASE f \in {"add", "sub"} -> u [] f = "mul" -> UMul(u, v) [] f = "div" -> UMul(u, UInv(v)) [] OTHER -> NoUnit
OpQ(f, a, b) ==   \* b has as many numbers as a
  LET u == ResUnit(f, a.u, b.u) base == [k \in 1..Len(a.base) |-> Fun(f, a.base[k], b.base[k])] IN
  [u |-> u, base |-> base]
At(s, i, j) == s.d.base[(i - 1) * s.m + j]
Slope(s, j) == RDiv(RSub(At(s, 2, j), At(s, 1, j)), RSub(s.x.base[2], s.x.base[1]))
Linear(s) == \A j \in 1..s.m, i \in 1..(s.n - 1) : RDiv(RSub(At(s, i + 1, j), At(s, i, j)), RSub(s.x.base[i + 1], s.x.base[i])) = Slope(s, j)
RECURSIVE Trap(_, _, _)
Trap(s, j, i) == IF i = 1 THEN I(0)
                 ELSE RAdd(Trap(s, j, i - 1), RMul(RMul(RAdd(At(s, i, j), At(s, i - 1, j)), <<1, 2>>), RSub(s.x.base[i], s.x.base[i - 1])))
NoneIf(s, u) == IF s.d.u.none = 1 THEN NoUnit ELSE IF s.x.u.none = 1 THEN s.d.u ELSE u

Bad(s, e) ==
  LET o == e.o IN
  CASE o.op = "set" ->   \* units of the coordinate: those of the data may not change
         Expect(e, FALSE, IF o.w = "data" THEN [s EXCEPT !.d = SetQ(s.d, Table[o.u])] ELSE [s EXCEPT !.x = SetQ(s.x, Table[o.u])])
    [] o.op = "conv" ->
         IF o.w = "data" THEN Expect(e, ~CanConvert(s.d, Table[o.u]), IF CanConvert(s.d, Table[o.u]) THEN [s EXCEPT !.d = ConvQ(s.d, Table[o.u])] ELSE s)
         ELSE Expect(e, ~CanConvert(s.x, Table[o.u]), IF CanConvert(s.x, Table[o.u]) THEN [s EXCEPT !.x = ConvQ(s.x, Table[o.u])] ELSE s)
    [] o.op = "simp" ->
         IF ~Ok(e) THEN Raised(e) ELSE LET d == SimpQ(s.d) x == SimpQ(s.x) IN
           (IF ~SameU(d.u, e.obs.d.u) THEN {"data-unit"} ELSE {}) \cup (IF d.base # e.obs.d.base THEN {"data-value"} ELSE {})
           \cup (IF ~SameU(x.u, e.obs.x.u) THEN {"coord-unit"} ELSE {}) \cup (IF x.base # e.obs.x.base THEN {"coord-value"} ELSE {})
    [] o.op = "sel" ->
         LET bad == \E q \in {o.lo, o.hi} \ {<<>>} : s.x.u.none = 1 \/ ~Same(Table[q[1].u], s.x.u)
             lo == Bound(o.lo) hi == Bound(o.hi)
             idx == SelectSeq([i \in 1..s.n |-> i], LAMBDA i : Inside(s.x.base[i], lo, hi))
         IN IF bad THEN Expect(e, TRUE, s) ELSE Expect(e, FALSE, Keep(s, idx))
    [] o.op = "qop" ->      \* with a quantity
         LET v == Table[o.u] b == Q(v, [k \in 1..Len(s.d.raw) |-> o.v])
             may == o.f \notin {"mul", "div"} /\ ~Same(s.d.u, v)
         IN IF ~Ok(e) THEN (IF may THEN {} ELSE Raised(e))
            ELSE IF may THEN {"accepted"}
            ELSE BadOp(OpQ(o.f, s.d, b), e.obs.d) \cup Bad1("coord", s.x, e.obs.x)
    [] o.op = "pop" ->      \* with a patch of the same data whose labels have been converted
         LET may == s.x.u.none = 0 /\ Table[o.xu] # s.x.u   \* refused, or combined by what the labels stand for
             r == OpQ(o.f, s.d, s.d)
         IN IF ~Ok(e) THEN (IF may THEN {} ELSE Raised(e))
            ELSE IF s.x.u.none = 0 /\ ~Same(s.x.u, Table[o.xu]) THEN {"accepted"}
            ELSE BadOp(IF s.d.u.none = 1 THEN [r EXCEPT !.u = NoUnit] ELSE r, e.obs.d) \cup Bad1("coord", s.x, e.obs.x)
    [] o.op = "diff" ->
         IF ~Ok(e) THEN Raised(e)
         ELSE LET u == NoneIf(s, UMul(s.d.u, UInv(s.x.u))) IN
              (IF ~SameU(u, e.obs.d.u) THEN {"data-unit"} ELSE {}) \cup Bad1("coord", s.x, e.obs.x)
              \cup (IF u.none = 0 /\ Linear(s) /\ e.obs.d.base # [k \in 1..Len(s.d.base) |-> Slope(s, ((k - 1) % s.m) + 1)] THEN {"data-value"} ELSE {})
    [] o.op = "int" ->
         IF ~Ok(e) THEN Raised(e)
         ELSE LET u == NoneIf(s, UMul(s.d.u, s.x.u)) IN
              (IF ~SameU(u, e.obs.d.u) THEN {"data-unit"} ELSE {})
              \cup (IF u.none = 0 /\ e.obs.d.base # [j \in 1..s.m |-> Trap(s, j, s.n)] THEN {"data-value"} ELSE {})
    [] o.op = "dft" ->
         IF ~Ok(e) THEN Raised(e)
         ELSE (IF ~SameU(NoneIf(s, UMul(s.d.u, s.x.u)), e.obs.d.u) THEN {"data-unit"} ELSE {})
              \cup (IF s.x.u.none = 0 /\ ~SameU(UInv(s.x.u), e.obs.x.u) THEN {"coord-unit"} ELSE {})
              \cup (Same2(s, e.back) \ (IF Plain(e.obs.d.u) THEN {"data-unit", "data-value"} ELSE {}))   \* no unit can't come back
    [] o.op = "filt" ->     \* limits of a filter, given as frequencies or periods in any unit
         LET v == Table[o.u] to == Table[o.to]
             per == Same(v, to)
             Lim(q) == IF q = <<>> THEN <<>> ELSE <<IF per THEN RMul(to.f, RInv(Base(v, q[1]))) ELSE RMul(Base(v, q[1]), to.f)>>
             x == IF per /\ o.lo # <<>> /\ o.hi # <<>> THEN <<Lim(o.hi), Lim(o.lo)>> ELSE <<Lim(o.lo), Lim(o.hi)>>
             may == ~per /\ ~Same(v, UInv(to))
         IN IF ~Ok(e) THEN (IF may THEN {} ELSE Raised(e)) ELSE IF may THEN {"accepted"} ELSE IF e.out # x THEN {"limits"} ELSE {}
    [] OTHER -> {}

TraceInit == t \in 1..Len(Traces) /\ l = 0 /\ st = Traces[t].init
TraceNext ==
  /\ l < Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l + 1] bad == Bad(st, e) IN
       /\ IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([t |-> t, l |-> l + 1, bad |-> bad]))
       /\ st' = (IF e.keep = 1 THEN e.obs ELSE st)
  /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").distinct >= Len(Traces)
=============================================================================
