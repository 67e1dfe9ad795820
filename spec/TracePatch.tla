----------------------------- MODULE TracePatch -----------------------------
(* Verdicts for recorded executions of patch operations.                    *)
(* Trace line: [init, ev : Seq([o, err, obs, meta, ...])].                   *)
(* Each event is judged by Bad(st, e): the set of violated clauses.          *)
EXTENDS Patch, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, st
tvars == <<t, l, st>>

Ev(tt, ll) == Traces[tt].ev[ll]
EvN(tt) == Len(Traces[tt].ev)

(* comparison of an observed with an expected patch *)
DiffPatch(exp, obs, may, uns, tol) ==
  LET en == DOMAIN exp.coords
      on == DOMAIN obs.coords
      close(a, b) == /\ Len(a) = Len(b)
                     /\ \A i \in 1..Len(a) : (a[i] - b[i] <= tol /\ b[i] - a[i] <= tol)
      cbad == {n \in (en \cap on) \ uns :
                  \/ exp.coords[n].d # obs.coords[n].d
                  \/ ~close(exp.coords[n].v, obs.coords[n].v)}
  IN (IF exp.dims # obs.dims THEN {"dims"} ELSE {})
     \cup (IF exp.data # obs.data THEN {"data"} ELSE {})
     \cup (IF \/ (en \ may) \ on # {} \/ on \ en # {} THEN {"coord-set"} ELSE {})
     \cup {"coord:" \o n : n \in cbad}

(* property C01 on an observation: everything the patch publishes about     *)
(* itself agrees with its data and coordinate values.                        *)
CoordMetaBad(n, c, m) ==
  LET v  == c.v
      nn == NonNull(v)
  IN IF m.partial = 1
     THEN (IF \E i \in 1..Len(v) : v[i] # NULL THEN {"partial-values:" \o n} ELSE {})
     ELSE (IF v # <<>> /\ nn # {} /\ OFF \notin nn /\ m.min # VMin(v) THEN {"coord-min:" \o n} ELSE {})
     \cup (IF v # <<>> /\ nn # {} /\ OFF \notin nn /\ m.max # VMax(v) THEN {"coord-max:" \o n} ELSE {})
     \cup (IF m.even = 1 /\ Len(v) >= 2 /\ OFF \notin ToSet(v)
              /\ \E i \in 2..Len(v) : v[i] - v[i - 1] # m.step THEN {"coord-step:" \o n} ELSE {})
     \cup (IF m.even = 1 /\ m.step = NULL THEN {"coord-step-null:" \o n} ELSE {})
     \cup (IF m.sorted = 1 /\ Len(c.d) <= 1 /\ NULL \notin ToSet(v) /\ ~IsAsc(v) THEN {"claims-sorted:" \o n} ELSE {})
     \cup (IF m.rsorted = 1 /\ Len(c.d) <= 1 /\ NULL \notin ToSet(v) /\ ~IsDesc(v) THEN {"claims-rsorted:" \o n} ELSE {})

MetaBad(obs, m) ==
  LET sh == Shape(obs) IN
     (IF m.shape # sh THEN {"data-shape"} ELSE {})
  \cup (IF m.pshape # sh THEN {"patch-shape"} ELSE {})
  \cup (IF m.ndim # Len(obs.dims) THEN {"ndim"} ELSE {})
  \cup (IF m.size # Prod(sh) THEN {"size"} ELSE {})
  \cup (IF m.adims # obs.dims THEN {"attr-dims"} ELSE {})
  \cup (IF DOMAIN m.asum # DOMAIN obs.coords THEN {"attr-coord-set"} ELSE {})
  \cup {"shape:" \o n : n \in {x \in DOMAIN obs.coords :
            obs.coords[x].d # <<>> /\ m.cm[x].shape # CShape(obs, x)}}
  \cup {"attr-summary:" \o n : n \in {x \in DOMAIN obs.coords :
            /\ x \in DOMAIN m.asum
            /\ m.cm[x].partial = 0
            /\ \/ m.asum[x].min # m.cm[x].min
               \/ m.asum[x].max # m.cm[x].max
               \/ m.asum[x].step # m.cm[x].step
               \/ m.asum[x].units # m.cm[x].units}}
  \cup UNION {CoordMetaBad(n, obs.coords[n], m.cm[n]) : n \in DOMAIN obs.coords}

HasF(r, f) == f \in DOMAIN r

(* value queries on an empty (zero length) coordinate may be refused *)
EmptyQuery(s, o) ==
  /\ o.op \in {"select", "order"}
  /\ \/ \E i \in 1..Len(o.q) : s.coords[o.q[i].c].v = <<>>
     \/ Len(o.q) > 1 /\ o.op = "select" /\ SelectAll(s, o.q).data = <<>>

Bad(s, e) ==
  IF e.err # ""
  THEN IF e.o.op = "reject" \/ (HasF(e.o, "mayerr") /\ e.o.mayerr = 1)
          \/ EmptyQuery(s, e.o) THEN {} ELSE {"raised:" \o e.err}
  ELSE IF ~WellFormed(e.obs) THEN {"malformed"}
  ELSE IF e.o.op = "reject" THEN {"not-rejected"}
  ELSE (IF e.o.op = "any" THEN {}
        ELSE DiffPatch(Apply(s, e.o), e.obs, MayDrop(s, e.o), Unspec(s, e.o),
                       IF HasF(e.o, "tol") THEN e.o.tol ELSE 0))
       \cup (IF HasF(e, "kept") /\ e.kept = 0 THEN {"attr-lost"} ELSE {})
       \cup (IF HasF(e, "meta") THEN MetaBad(e.obs, e.meta) ELSE {})

TraceInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ st = Traces[t].init
TraceNext ==
  /\ l <= EvN(t)
  /\ LET e == Ev(t, l)
         b == Bad(st, e)
     IN /\ IF b = {} THEN TRUE
           ELSE PrintT("@@BAD " \o ToJson([t |-> t, l |-> l, bad |-> b]))
        /\ IF e.err # "" THEN st' = st ELSE st' = e.obs
        /\ l' = IF "malformed" \in b THEN EvN(t) + 1 ELSE l + 1
  /\ UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").distinct >= Len(Traces)
=============================================================================
