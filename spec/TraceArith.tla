----------------------------- MODULE TraceArith -----------------------------
(* Verdicts for recorded element-wise, reducing, rolling and combining       *)
(* operations.  Trace line: [init, ev : Seq([o, err, obs, outs])].            *)
EXTENDS Arith, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, st
tvars == <<t, l, st>>

Diff(exp, obs, may) ==
  LET en == DOMAIN exp.coords on == DOMAIN obs.coords IN
     (IF exp.dims # obs.dims THEN {"dims"} ELSE {})
  \cup (IF exp.data # obs.data THEN {"data"} ELSE {})
  \cup (IF (en \ may) \ on # {} \/ on \ en # {} THEN {"coord-set"} ELSE {})
  \cup {"coord:" \o n : n \in {m \in en \cap on : exp.coords[m] # obs.coords[m]}}

Fits(p, ds) == \A i \in 1..Len(ds) : DimLen(p, ds[i]) > 0
Raised(e) == {"raised:" \o e.err}
Bad(s, e) ==
  LET o == e.o ok == e.err = "" IN
  CASE o.op = "un" ->
         IF ~ok THEN Raised(e)
         ELSE Diff([s EXCEPT !.data = [k \in 1..Len(s.data) |-> F1(o.f, s.data[k])]], e.obs, {})
    [] o.op = "bin" ->
         IF o.conflict = 1 THEN (IF ok THEN {"conflict-accepted"} ELSE {})
         ELSE IF ~ok THEN (IF MayFail(<<s, o.q>>) THEN {} ELSE Raised(e))
         ELSE IF ~WellFormed(e.obs) THEN {"malformed"} ELSE BinBad(s, o.q, e.obs, o.f)
    [] o.op = "where" ->
         IF ~ok THEN (IF MayFail(<<s, o.q>> \o o.s) THEN {} ELSE Raised(e))
         ELSE IF ~WellFormed(e.obs) THEN {"malformed"} ELSE WhereBad(s, o.q, o.s, o.x, e.obs)
    [] o.op = "arr" ->
         IF ~CastOk(s, o.b) THEN (IF ok THEN {"cast-accepted"} ELSE {})
         ELSE IF ~ok THEN Raised(e)
         ELSE IF ~WellFormed(e.obs) THEN {"malformed"} ELSE ArrBad(s, o.b, e.obs, o.f, o.rev = 1)
    [] o.op = "agg" ->
         IF ~ok THEN (IF ~Fits(s, o.ds) \/ (o.how = "squeeze" /\ ToSet(o.ds) = ToSet(s.dims)) THEN {} ELSE Raised(e))
         ELSE IF ~WellFormed(e.obs) THEN {"malformed"}
         ELSE LET x == Agg(s, o.ds, o.f, o.how, o.skip = 1) IN
              (* a dimension of one sample may keep its other coordinates     *)
              Diff(x, [e.obs EXCEPT !.coords = [n \in {m \in Names(e.obs) :
                       m \in Names(x) \/ m \notin Names(s) \/ e.obs.coords[m] # s.coords[m]
                       \/ \E d \in ToSet(o.ds) : DimLen(s, d) # 1 /\ Has(s.coords[m].d, d)} |-> e.obs.coords[n]]], {})
    [] o.op = "acc" ->
         IF ~ok THEN (IF Fits(s, <<o.d>>) THEN Raised(e) ELSE {}) ELSE Diff(Accum(s, o.d, o.f), e.obs, {})
    [] o.op = "roll" ->
         IF ~ok THEN (IF o.w > DimLen(s, o.d) \/ o.step > DimLen(s, o.d) \/ ~IsEven(s.coords[o.d].v) \/ (o.engine = "pandas" /\ Len(s.dims) > 2) THEN {} ELSE Raised(e))
         ELSE Diff(Rolling(s, o.d, o.f, o.w, o.step, o.center = 1), e.obs, OnDim(s, o.d) \ {o.d})
    [] o.op = "cat" ->
         LET bad == \E i \in 1..Len(o.ps) : ~Compat(o.ps[1], o.ps[i], o.d, FALSE)
             dd == \E i \in 1..Len(o.ps) : o.ps[i].dims # o.ps[1].dims
         IN IF dd \/ (bad /\ o.check = "raise") THEN (IF ok THEN {"incompatible-accepted"} ELSE {})
            ELSE IF ~ok THEN Raised(e)
            ELSE IF \E i \in 1..Len(e.outs) : ~WellFormed(e.outs[i]) THEN {"malformed"}
            ELSE ConcatBad(o.ps, o.d, o.n, e.outs)
    [] o.op = "stack" ->
         LET bad == \E i \in 1..Len(o.ps) : o.ps[i].dims # o.ps[1].dims \/ ~Compat(o.ps[1], o.ps[i], o.d, TRUE)
         IN IF bad /\ o.check = "raise" THEN (IF ok THEN {"incompatible-accepted"} ELSE {})
            ELSE IF ~ok THEN Raised(e)
            ELSE IF ~WellFormed(e.obs) THEN {"malformed"}
            ELSE StackBad(o.ps, o.d, e.obs)
    [] OTHER -> {"unknown-operation"}

TraceInit == t \in 1..Len(Traces) /\ l = 0 /\ st = Traces[t].init
TraceNext ==
  /\ l < Len(Traces[t].ev)
  /\ l' = l + 1
  /\ LET e == Traces[t].ev[l + 1] b == Bad(st, e) IN
     /\ (IF b # {} THEN PrintT("@@BAD " \o ToJson([t |-> t, l |-> l + 1, bad |-> b])) ELSE TRUE)
     /\ st' = IF e.err = "" /\ e.keep = 1 THEN e.obs ELSE st
  /\ UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").distinct >= Len(Traces)
=============================================================================
