--------------------------- MODULE TraceShaping ---------------------------
(* Verdicts for recorded operations (as TraceSampling).                      *)
EXTENDS Shaping, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, st
tvars == <<t, l, st>>
BadQ(s, r, exact) == IF r.q # <<>> /\ r.q # exact THEN {"aux"} ELSE {}
Cmp(x, r, q) ==
  (IF r.y # x.y THEN {"other-labels"} ELSE {}) \cup (IF r.x # x.x THEN {"labels"} ELSE {})
  \cup (IF r.d # x.d THEN {"data"} ELSE {}) \cup BadQ(x, r, q)
(* data of integers may be rounded either way *)
Near(x, r) == Len(r.d) = Nx(x) /\ \A i \in 1..Nx(x) : Len(r.d[i]) = Ny(x)
              /\ \A j \in 1..Ny(x) : r.d[i][j] # Nan /\ RLt(AbsR(RSub(r.d[i][j], x.d[i][j])), I(1))
Along(s, o) == IF o.dim = "y" THEN Tr(s) ELSE s
Back(x, o) == IF o.dim = "y" THEN Tr(x) ELSE x
Apply(s, o) ==       \* s: the dimension acted on comes first
  CASE o.op = "norm" -> Scale(s, o.kind)
    [] o.op = "detrend" -> Detrend(s, o.kind)
    [] o.op = "taper" -> Taper(s, o.h, o.t)
    [] o.op = "range" -> TaperRange(s, o.q, o.inv = 1)
    [] o.op = "mute" -> Mute(s, o.lo, o.hi, o.inv = 1)
    [] o.op = "align" -> Align(s, o.sh, o.mode, o.fill)
    [] o.op = "fill" -> Fill(s, o.fill, o.inf = 1)
    [] o.op = "drop" -> DropX(s, o.kind, o.inf = 1)
    [] o.op = "median" -> Median(s, o.wx, o.wy)
    [] o.op = "hampel" -> Hampel(s, o.wx, o.wy, o.thr)
    [] OTHER -> s
(* refused: tapers which overlap or cover the dimension; aligning without any overlap *)
Must(s, o) == o.op = "taper" /\ ~TaperOk(s, o.h, o.t)
May(s, o) == Must(s, o) \/ (o.op = "taper" /\ (HeadN(s, o.h) = Nx(s) \/ TailN(s, o.t) = Nx(s))) \/ o.may = 1
             \/ (o.op = "align" /\ Len(Align(s, o.sh, o.mode, o.fill).x) < 1)
Bad(s, e) ==
  LET o == e.o r == e.obs s1 == Along(s, o) IN
  IF e.err # "" THEN (IF May(s1, o) THEN {} ELSE {"raised:" \o e.err}) ELSE
  IF Must(s1, o) THEN {"not-refused"} ELSE
  IF o.op = "slope" THEN
    (IF r.x # s.x THEN {"labels"} ELSE {}) \cup (IF r.y # s.y THEN {"other-labels"} ELSE {}) \cup BadQ(s, r, s.q)
    \cup (IF ~SlopeOk(s, r, o.s1, o.s2, o.inv = 1) THEN {"data"} ELSE {})
  ELSE LET x == Back(Apply(s1, o), o)
           q == IF o.dim = "x" /\ o.op \in {"align", "drop"} THEN Apply(s1, o).q ELSE s.q
       IN IF o.isint = 1 /\ o.op = "taper" THEN Cmp([x EXCEPT !.d = r.d], r, q) \cup (IF Near(x, r) THEN {} ELSE {"data"})
          ELSE Cmp(x, r, IF o.op = "align" /\ Nx(x) = Nx(s) THEN s.q ELSE IF o.op = "align" /\ o.dim = "x" THEN <<>> ELSE q)
TraceInit == t \in 1..Len(Traces) /\ l = 0 /\ st = Traces[t].init
TraceNext ==
  /\ l < Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l + 1] bad == Bad(st, e) IN
       /\ IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([t |-> t, l |-> l + 1, bad |-> bad]))
       /\ st' = (IF e.keep = 1 THEN e.obs ELSE st)
  /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").distinct >= Len(Traces)
=============================================================================
