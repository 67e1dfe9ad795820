----------------------------- MODULE TraceTimes -----------------------------
(* Verdicts for recorded conversions.                                        *)
(* Trace line: [init, ev : Seq([o, err, inp, shape, single, out, oshape,     *)
(* owner, same])]: input values with their shape, output values, whether the *)
(* output came as the right container (owner) and the input was left alone.  *)
EXTENDS Times, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l
tvars == <<t, l>>
Raised(e) == {"raised:" \o e.err}
One(f, single, x) == IF single THEN Conv1(f, x) ELSE Conv(f, x)
Bad(e) ==
  LET o == e.o IN
  CASE o.op = "conv" ->
         IF e.err # "" THEN Raised(e)
         ELSE (IF e.oshape # e.shape THEN {"shape"} ELSE {})
              \cup (IF e.owner # 1 THEN {"container"} ELSE {})
              \cup (IF e.same # 1 THEN {"input-changed"} ELSE {})
              \cup (IF Len(e.out) # Len(e.inp) THEN {"length"}
                    ELSE UNION {LET x == One(o.f, e.single = 1, e.inp[i]) IN
                                (IF x.k # e.out[i].k THEN {"kind"} ELSE {}) \cup (IF x.v # e.out[i].v THEN {"value"} ELSE {}) : i \in 1..Len(e.inp)})
    [] o.op = "range" ->
         IF RangeBad(e.inp[1], e.inp[2]) THEN (IF e.err = "" THEN {"accepted"} ELSE {})
         ELSE IF e.err # "" THEN Raised(e)
         ELSE LET r == Range(e.inp[1], e.inp[2]) IN (IF e.out # <<r.lo, r.hi>> THEN {"range"} ELSE {}) \cup (IF e.same # 1 THEN {"input-changed"} ELSE {})
    [] OTHER -> {}
TraceInit == t \in 1..Len(Traces) /\ l = 0
TraceNext ==
  /\ l < Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l + 1] bad == Bad(e) IN
       IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([t |-> t, l |-> l + 1, bad |-> bad]))
  /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").distinct >= Len(Traces)
=============================================================================
