---------------------------- MODULE TraceConform ----------------------------
(* Verdicts for C01: everything a patch publishes about itself agrees with  *)
(* its data array and its coordinate values, in every state reached.        *)
(* An event is [o, err, s : structure, m : published facts].  Coordinate     *)
(* values are given as ranks (order isomorphic to the real values, NULL for  *)
(* NaN/NaT), so min/max/sortedness are decided exactly for any dtype.        *)
EXTENDS NDArray, Json, IOUtils, FiniteSets

NULL == 2000000001
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l
tvars == <<t, l>>

(* s = [dims, coords : name -> [d, shape, r (ranks flattened)], dshape] *)
DimLen(s, d) == Prod(s.coords[d].shape)
Shape(s) == [i \in 1..Len(s.dims) |-> DimLen(s, s.dims[i])]
CShape(s, n) == [i \in 1..Len(s.coords[n].d) |-> DimLen(s, s.coords[n].d[i])]

Structure(s) ==
     (IF \E i \in 1..Len(s.dims) : s.dims[i] \notin DOMAIN s.coords THEN {"dim-without-coord"}
      ELSE (IF \E i, j \in 1..Len(s.dims) : i # j /\ s.dims[i] = s.dims[j] THEN {"duplicate-dim"} ELSE {})
        \cup {"dim-coord-dims:" \o d : d \in {x \in ToSet(s.dims) : s.coords[x].d # <<x>>}}
        \cup {"dim-coord-ndim:" \o d : d \in {x \in ToSet(s.dims) : Len(s.coords[x].shape) # 1}}
        \cup {"foreign-dim:" \o n : n \in {x \in DOMAIN s.coords : ~(ToSet(s.coords[x].d) \subseteq ToSet(s.dims))}}
        \cup {"coord-shape:" \o n : n \in {x \in DOMAIN s.coords :
                 /\ s.coords[x].d # <<>> /\ ToSet(s.coords[x].d) \subseteq ToSet(s.dims)
                 /\ s.coords[x].shape # CShape(s, x)}}
        \cup {"values-shape:" \o n : n \in {x \in DOMAIN s.coords : Len(s.coords[x].r) # Prod(s.coords[x].shape)}}
        \cup (IF s.dshape # Shape(s) THEN {"data-shape"} ELSE {}))

NonNull(v) == {v[i] : i \in 1..Len(v)} \ {NULL}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
IsAsc(v)  == \A i \in 1..(Len(v) - 1) : v[i] <= v[i + 1]
IsDesc(v) == \A i \in 1..(Len(v) - 1) : v[i] >= v[i + 1]

(* facts published by one coordinate and its summary in the attributes *)
CoordBad(n, c, f) ==
  LET v == c.r
      nn == NonNull(v)
  IN IF f.partial = 1
     THEN (IF f.aunits # f.units THEN {"attr-units:" \o n} ELSE {})
     ELSE (IF nn # {} /\ f.min # SetMin(nn) THEN {"coord-min:" \o n} ELSE {})
     \cup (IF nn # {} /\ f.max # SetMax(nn) THEN {"coord-max:" \o n} ELSE {})
     \cup (IF f.n # Prod(c.shape) /\ Len(c.shape) = 1 THEN {"coord-len:" \o n} ELSE {})
     \cup (IF f.even = 1 /\ f.step = NULL THEN {"coord-step-null:" \o n} ELSE {})
     \cup (IF f.even = 1 /\ \E i \in 1..Len(f.sd) : f.sd[i] < 999900 \/ f.sd[i] > 1000100
           THEN {"coord-step:" \o n} ELSE {})
     \cup (IF f.sorted = 1 /\ Len(c.shape) <= 1 /\ NULL \notin ToSet(v) /\ ~IsAsc(v) THEN {"claims-sorted:" \o n} ELSE {})
     \cup (IF f.rsorted = 1 /\ Len(c.shape) <= 1 /\ NULL \notin ToSet(v) /\ ~IsDesc(v) THEN {"claims-rsorted:" \o n} ELSE {})
     \cup (IF f.amin # f.min THEN {"attr-min:" \o n} ELSE {})
     \cup (IF f.amax # f.max THEN {"attr-max:" \o n} ELSE {})
     \cup (IF f.astep # f.step THEN {"attr-step:" \o n} ELSE {})
     \cup (IF f.aunits # f.units THEN {"attr-units:" \o n} ELSE {})

Published(s, m) ==
     (IF m.pshape # s.dshape THEN {"patch-shape"} ELSE {})
  \cup (IF m.ndim # Len(s.dims) THEN {"ndim"} ELSE {})
  \cup (IF m.size # Prod(s.dshape) THEN {"size"} ELSE {})
  \cup (IF m.adims # s.dims THEN {"attr-dims"} ELSE {})
  \cup (IF m.pdims # s.dims THEN {"patch-dims"} ELSE {})
  \cup (IF m.cshapes # [n \in DOMAIN s.coords |-> s.coords[n].shape] THEN {"coord-shapes"} ELSE {})
  \cup (IF ToSet(m.anames) # DOMAIN s.coords THEN {"attr-coord-set"} ELSE {})
  \cup (IF DOMAIN s.coords \subseteq ToSet(m.anames)
        THEN UNION {CoordBad(n, s.coords[n], m.f[n]) : n \in DOMAIN s.coords} ELSE {})

Bad(e) == IF e.err # "" THEN {} ELSE
          LET b == Structure(e.s) IN IF b # {} THEN b ELSE Published(e.s, e.m)

TraceInit == t \in 1..Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Traces[t].ev)
  /\ LET b == Bad(Traces[t].ev[l])
     IN IF b = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([t |-> t, l |-> l, bad |-> b]))
  /\ l' = l + 1
  /\ UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").distinct >= Len(Traces)
=============================================================================
