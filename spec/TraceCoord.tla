------------------------------ MODULE TraceCoord ------------------------------
(* Verdicts on recorded histories of one coordinate (C05, C06).              *)
(* Trace: [init, ev : Seq([o, err, c, ix, ...])]; state: the last coordinate  *)
EXTENDS Coord, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, c
tvars == <<t, l, c>>

Raised(e) == {"raised:" \o e.err}
Same(e) == (IF e.c.un # c.un THEN {"units"} ELSE {}) \cup (IF e.c.dt # c.dt THEN {"dtype"} ELSE {})
OpBad(e) ==
  LET o == e.o v == c.v n == Len(c.v) IN
  CASE o.op = "make" ->
         IF o.bad = 1 THEN (IF e.err = "" THEN {"not-rejected"} ELSE {})
         ELSE IF e.err # "" THEN Raised(e)
         ELSE LET w == Made(o) IN
              (IF e.c.v # w THEN {"values"} ELSE {})
              \cup (IF e.c.dt # o.dt THEN {"dtype"} ELSE {})
              \cup (IF e.c.un # o.un THEN {"units"} ELSE {})
              \cup (IF Even(w) /\ e.c.ev = 0 THEN {"not-even"} ELSE {})
              \cup (IF Len(w) = 1 /\ o.mode # "array" /\ e.c.st # o.step THEN {"step"} ELSE {})
    [] o.op = "take" /\ ~InBounds(n, o.arr) ->
         (IF e.err = "" THEN {"not-rejected"} ELSE IF e.err # "IndexError" THEN {"wrong-error:" \o e.err} ELSE {})
    [] o.op \in ExactOps /\ ~(o.op = "take" /\ ~InBounds(n, o.arr)) ->
         IF e.err # "" THEN Raised(e)
         ELSE LET ix == RightIx(v, o) IN
              (IF e.ix # ix THEN {"indexer"} ELSE {})
              \cup (IF e.c.v # Picks(v, ix) THEN {"values"} ELSE {})
              \cup Same(e)
              \cup (IF o.op \in {"sel", "slice"} /\ c.ev = 1 /\ Len(ix) > 0 /\ e.c.ev = 0 THEN {"evenness-lost"} ELSE {})
              \cup (IF o.op = "sel" /\ c.ev = 1 /\ Len(ix) > 0 /\ e.c.st # c.st THEN {"step-lost"} ELSE {})
    [] o.op = "item" ->
         IF o.i >= 0 - n /\ o.i < n
         THEN (IF e.err # "" THEN Raised(e) ELSE IF e.val # v[Wrap(n, <<o.i>>)[1] + 1] THEN {"value"} ELSE {})
         ELSE (IF e.err = "" THEN {"not-rejected"} ELSE IF e.err # "IndexError" THEN {"wrong-error:" \o e.err} ELSE {})
    [] o.op = "order" ->
         IF e.err # "" THEN Raised(e) ELSE
         OrderBad(v, IF o.rel = 1 THEN [k \in 1..Len(o.arr) |-> RelVal(v, o.arr[k])] ELSE o.arr, e.ix, e.c.v) \cup Same(e)
    [] o.op = "sort" -> IF e.err # "" THEN Raised(e) ELSE SortBad(v, o.rev, e.ix, e.c.v) \cup Same(e)
    [] o.op = "snap" ->
         IF n > 1 /\ ~Distinct(v) THEN {}
         ELSE IF e.err # "" THEN Raised(e)
         ELSE IF c.ev = 1 \/ n = 0 THEN (IF e.c.v # v THEN {"values"} ELSE {})
         ELSE SnapBad(v, e.c.v) \cup (IF e.c.ev = 0 THEN {"not-even"} ELSE {}) \cup (IF e.c.un # c.un THEN {"units"} ELSE {})
    [] o.op = "next" ->
         IF n = 0 \/ (n = 1 /\ c.so = 0) THEN {}
         ELSE IF ~WeakUp(v) THEN (IF e.err = "" THEN {"not-rejected"} ELSE {})
         ELSE IF ~Up(v) THEN {}
         ELSE LET q == IF o.rel = 1 THEN [k \in 1..Len(o.arr) |-> RelVal(v, o.arr[k])] ELSE o.arr
                  inb(x) == IF o.samples = 1 THEN x >= 0 - n /\ x < n ELSE Within(v, x)
                  ans(x) == IF o.samples = 1 THEN (IF x < 0 /\ o.oob = 0 THEN x + n ELSE x) ELSE NextIx(v, x)
                  all == \A k \in 1..Len(q) : inb(q[k])
              IN IF ~all /\ o.oob = 0
                 THEN (IF e.err = "" THEN {"not-rejected"} ELSE IF e.err # "ValueError" THEN {"wrong-error:" \o e.err} ELSE {})
                 ELSE IF e.err # "" THEN Raised(e)
                 ELSE IF Len(e.out) # Len(q) THEN {"count"}
                 ELSE IF \E k \in 1..Len(q) : inb(q[k]) /\ e.out[k] # ans(q[k]) THEN {"next-index"} ELSE {}
    [] o.op = "count" ->
         IF c.ev = 0 THEN (IF e.err = "" THEN {"not-rejected"} ELSE {})
         ELSE LET k == IF o.samples = 1 THEN o.q ELSE SampleCount(c.st, o.q) IN
              IF o.lt = 1 /\ k > n THEN (IF e.err = "" THEN {"not-rejected"} ELSE {})
              ELSE IF e.err # "" THEN Raised(e) ELSE IF e.out[1] # k THEN {"sample-count"} ELSE {}
    [] o.op = "chlen" ->
         IF o.n < 0 THEN (IF e.err = "" THEN {"not-rejected"} ELSE {})
         ELSE IF c.ev = 0 THEN
              (IF e.err \in {"NotImplementedError"} THEN {} ELSE IF e.err # "" THEN Raised(e) ELSE IF e.c.n # o.n THEN {"length"} ELSE {})
         ELSE IF e.err # "" THEN Raised(e)
         ELSE (IF e.c.v # Grid(v[1], c.st, o.n) THEN {"values"} ELSE {}) \cup Same(e)
              \cup (IF o.n > 0 /\ e.c.st # c.st THEN {"step-lost"} ELSE {})
    [] o.op = "limits" ->
         IF n = 0 \/ (o.step # NULL /\ c.ev = 0 /\ ~Distinct(v)) THEN {}
         ELSE IF e.err # "" THEN Raised(e)
         ELSE (IF e.c.v # Limits(v, c.ev, o) THEN {"values"} ELSE {})
              \cup (IF o.step = NULL THEN Same(e) ELSE Same(e) \ {"dtype"})
              \cup (IF c.ev = 1 /\ e.c.st # (IF o.step = NULL THEN c.st ELSE o.step) THEN {"step"} ELSE {})
    [] o.op = "summary" ->
         IF e.err # "" THEN Raised(e)
         ELSE (IF n > 0 /\ <<e.out[1], e.out[2]>> # <<MinOf(v), MaxOf(v)>> THEN {"summary-limits"} ELSE {})
              \cup (IF n > 0 /\ c.ev = 1 /\ e.out[3] # c.st THEN {"summary-step"} ELSE {})
              \cup (IF c.ev = 1 /\ (e.c.v # v \/ e.c.un # c.un) THEN {"summary-coord"} ELSE {})
    [] o.op = "empty" -> IF e.err # "" THEN Raised(e) ELSE (IF e.c.v # <<>> \/ e.c.n # 0 THEN {"values"} ELSE {}) \cup Same(e)
    [] o.op = "reduce" ->
         IF n = 0 THEN {}
         ELSE IF e.err # "" THEN Raised(e)
         ELSE (CASE o.how = "min" -> IF e.c.v # <<MinOf(v)>> THEN {"values"} ELSE {}
                 [] o.how = "max" -> IF e.c.v # <<MaxOf(v)>> THEN {"values"} ELSE {}
                 [] o.how = "first" -> IF e.c.v # <<v[1]>> THEN {"values"} ELSE {}
                 [] o.how = "last" -> IF e.c.v # <<v[n]>> THEN {"values"} ELSE {}
                 [] o.how = "empty" -> IF e.c.n # 1 THEN {"length"} ELSE {})
              \cup (IF e.c.un # c.un THEN {"units"} ELSE {})
    [] o.op = "align" ->
         IF n = 0 \/ Len(e.w) = 0 \/ ~Distinct(v) THEN {}
         ELSE IF e.err # "" THEN Raised(e)
         ELSE LET inter == ToSet(v) \cap ToSet(e.w) IN
              (IF ToSet(e.c.v) # inter \/ ~Distinct(e.c.v) THEN {"intersection"} ELSE {})
              \cup (IF e.c.v # e.c2.v THEN {"not-aligned"} ELSE {})
              \cup (IF Len(e.ix) # Len(e.c.v) THEN {"indexer"} ELSE IF Picks(v, e.ix) # e.c.v THEN {"indexer"} ELSE {})
              \cup (IF Len(e.ix2) # Len(e.c2.v) THEN {"indexer"} ELSE IF Picks(e.w, e.ix2) # e.c2.v THEN {"indexer"} ELSE {})
    [] o.op = "equal" ->
         IF e.err # "" THEN Raised(e)
         ELSE (IF e.out[1] # 1 THEN {"twin-differs"} ELSE {}) \cup (IF e.out[2] # 1 THEN {"twin-not-close"} ELSE {})
              \cup (IF n > 0 /\ e.out[3] # 0 THEN {"shifted-equal"} ELSE {}) \cup (IF n > 0 /\ e.out[4] # 0 THEN {"shifted-close"} ELSE {})
    [] OTHER -> {"unknown-operation"}

Bad(e) == OpBad(e) \cup (IF e.err = "" /\ e.keep = 1 THEN Consistent(e.c) ELSE {})
TInit == t \in 1..Len(Traces) /\ l = 0 /\ c = Traces[t].init
TNext ==
  /\ l < Len(Traces[t].ev)
  /\ l' = l + 1
  /\ LET e == Traces[t].ev[l + 1] b == Bad(e) IN
     /\ (IF b # {} THEN PrintT("@@BAD " \o ToJson([t |-> t, l |-> l + 1, bad |-> b])) ELSE TRUE)
     /\ c' = IF e.err = "" /\ e.keep = 1 THEN e.c ELSE c
  /\ UNCHANGED t
TraceSpec == TInit /\ [][TNext]_tvars
TraceDone == TLCGet("stats").distinct >= Len(Traces)
=============================================================================
