--------------------------- MODULE TraceSampling ---------------------------
(* Verdicts for recorded operations.                                         *)
(* Trace line: [init, ev : Seq([o, err, obs, sums, keep])]; Nan stands for   *)
(* null labels and for samples which are not simple rationals.               *)
EXTENDS Sampling, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, st
tvars == <<t, l, st>>
Raised(e) == {"raised:" \o e.err}
(* an associated value may be dropped, but never belong to another label *)
BadQ(s, r, exact) ==
  IF r.q = <<>> \/ s.q = <<>> THEN {}
  ELSE IF Len(r.q) # Len(r.x) THEN {"aux"}
  ELSE IF exact # <<>> THEN (IF r.q # exact THEN {"aux"} ELSE {}) ELSE {}
Cmp(s, x, r, q) ==
  (IF r.y # x.y THEN {"other-labels"} ELSE {}) \cup (IF r.x # x.x THEN {"labels"} ELSE {})
  \cup (IF r.d # x.d THEN {"data"} ELSE {}) \cup BadQ(s, r, q)
Const(s) == \A i \in 1..Nx(s) : s.d[i] = s.d[1]
Bad(s, e) ==
  LET o == e.o r == e.obs IN
  IF e.err # "" THEN (IF e.o.may = 1 THEN {} ELSE Raised(e)) ELSE
  CASE o.op = "dec" -> LET x == Decimate(s, o.f) IN Cmp(s, x, r, x.q)
    [] o.op = "pad" -> Cmp(s, PadX(s, o.b, o.a, o.v, o.expand = 1), r, IF o.a + o.b = 0 THEN s.q ELSE <<>>)
    [] o.op = "roll" -> LET x == RollX(s, o.k, o.lab = 1) IN Cmp(s, x, r, x.q)
    [] o.op = "interp" -> Cmp(s, Interp(s, o.labels, o.kind), r, IF o.labels = s.x THEN s.q ELSE <<>>)
    [] o.op = "snap" ->      \* evenly sampled labels over the same extent
         LET n == Nx(s)
             lo == s.x[MinOf(s, 1..n)] hi == s.x[MaxOf(s, 1..n)]
             lab == [i \in 1..n |-> RAdd(lo, RMul(I(i - 1), RDiv(RSub(hi, lo), I(n - 1))))]
             back == [i \in 1..n |-> lab[n + 1 - i]]
         IN IF r.x = lab THEN Cmp(s, Interp(s, lab, o.kind), r, <<>>) ELSE Cmp(s, Interp(s, back, o.kind), r, <<>>)
    [] o.op = "diff" -> Cmp(s, Diff(s, o.k), r, <<>>)
    [] o.op = "cdiff" ->     \* central differences; the ends are estimated otherwise
         LET k == o.k IN
         (IF r.x # s.x THEN {"labels"} ELSE {}) \cup (IF r.y # s.y THEN {"other-labels"} ELSE {}) \cup BadQ(s, r, s.q)
         \cup (IF \E i \in 1..Nx(s), j \in 1..Ny(s) : i > k /\ i + k <= Nx(s)
                    /\ r.d[i][j] # RDiv(RSub(s.d[i + k][j], s.d[i - k][j]), RMul(I(2 * k), Step(s))) THEN {"data"} ELSE {})
    [] o.op = "deriv" -> LET x == Deriv(s, o.k) IN Cmp(s, x, r, x.q)
    [] o.op = "integ" -> LET x == Integ(s) IN Cmp(s, x, r, x.q)
    [] o.op = "integd" ->    \* one sample
         (IF r.y # s.y THEN {"other-labels"} ELSE {})
         \cup (IF r.d # <<[j \in 1..Ny(s) |-> SumTo(Traps(s, j), Nx(s) - 1)]>> THEN {"data"} ELSE {})
    [] o.op = "corr" ->      \* d[i][j][k]: lag i, row j, source k
         LET n == Len(r.x) z == (n \div 2) + 1 IN
         (IF \E i \in 1..n : r.x[i] # RMul(I(i - z), Step(s)) THEN {"labels"} ELSE {})
         \cup (IF n < 2 * Nx(s) - 1 THEN {"lags"} ELSE {})
         \cup (IF r.y # s.y THEN {"other-labels"} ELSE {})
         \cup (IF r.z # [k \in 1..Len(o.src) |-> s.y[o.src[k]]] THEN {"sources"} ELSE {})
         \cup (IF \E i \in 1..n, j \in 1..Ny(s), k \in 1..Len(o.src) : r.d[i][j][k] # Corr(s, o.src[k], j, i - z) THEN {"data"} ELSE {})
    [] o.op = "dft" ->
         LET n == NFreq(s, o.real = 1) rl == o.real = 1 IN
         IF Len(r.x) # n THEN {"length"} ELSE
         (IF \E i \in 1..n : r.x[i] # DftLabel(s, i, rl) THEN {"labels"} ELSE {})
         \cup (IF r.y # s.y THEN {"other-labels"} ELSE {})
         \cup (IF \E i \in 1..n, j \in 1..Ny(s) : r.re[i][j] # DftRe(s, i, j, rl) \/ r.im[i][j] # DftIm(s, i, j, rl) THEN {"data"} ELSE {})
    [] o.op = "back" ->      \* transformed there and back again
         Cmp(s, s, r, s.q)
    [] o.op = "res" ->       \* fourier resampling to n samples
         LET n == o.n m == Nx(s) IN
         (IF r.x # ResLabels(s, n) THEN {"labels"} ELSE {}) \cup (IF r.y # s.y THEN {"other-labels"} ELSE {})
         \cup (IF n = m THEN BadQ(s, r, s.q) ELSE BadQ(s, r, <<>>))
         \cup (IF Len(r.d) # n THEN {"length"} ELSE
               (IF Const(s) /\ \E i \in 1..n : r.d[i] # s.d[1] THEN {"data"} ELSE {})
               \cup (IF n % m = 0 /\ \E i \in 1..m : r.d[(i - 1) * (n \div m) + 1] # s.d[i] THEN {"data"} ELSE {})
               \cup (IF \E j \in 1..Ny(s) : e.sums[j] = Nan \/ RMul(e.sums[j], I(m)) # RMul(ColSum(s, j), I(n)) THEN {"mean"} ELSE {}))
    [] o.op = "resp" ->      \* to a sampling period which does not fit the extent
         LET n == Len(r.x) ext == RMul(I(Nx(s)), Step(s)) IN
         (IF \E i \in 1..n : r.x[i] # RAdd(s.x[1], RMul(I(i - 1), o.p)) THEN {"labels"} ELSE {})
         \cup (IF n < 1 \/ ~RLt(RMul(I(n - 1), o.p), ext) THEN {"extent"} ELSE {})
         \cup (IF RLt(RAdd(RMul(I(n), o.p), RMul(I(2), Step(s))), ext) /\ RLt(RMul(I(n + 2), o.p), ext) THEN {"extent"} ELSE {})
         \cup (IF r.y # s.y THEN {"other-labels"} ELSE {})
         \cup (IF Const(s) /\ \E i \in 1..n : r.d[i] # s.d[1] THEN {"data"} ELSE {})
    [] OTHER -> {}
TraceInit == t \in 1..Len(Traces) /\ l = 0 /\ st = Traces[t].init
TraceNext ==
  /\ l < Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l + 1] bad == Bad(st, e) IN
       /\ IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([t |-> t, l |-> l + 1, bad |-> bad]))
       /\ st' = (IF e.keep = 1 THEN e.obs ELSE st)
  /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").distinct >= Len(Traces)
=============================================================================
