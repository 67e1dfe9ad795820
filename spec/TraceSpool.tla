----------------------------- MODULE TraceSpool -----------------------------
(* Verdicts on recorded spool histories (C07-C12).                          *)
(* Trace: [init : Seq(record), ev : Seq([o, err, stage, len, obs, ...])]    *)
EXTENDS Spool, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, st, chunked
tvars == <<t, l, st, chunked>>

Fields == {"v", "id", "x", "o", "oc", "pg", "pa"}
PatchDiff(e, r) == {"patch-" \o f : f \in {f \in Fields : e[f] # r[f]}}
RowFields == {"lo", "hi", "st", "olo", "ohi", "g", "a"}
RowDiff(e, r) == {"row-" \o f : f \in {f \in RowFields : e[f] # r[f]}}
SeqDiff(exp, res) ==
  IF Len(exp) # Len(res) THEN {"count"}
  ELSE UNION {PatchDiff(exp[i], res[i]) \cup RowDiff(exp[i], res[i]) : i \in 1..Len(exp)}

(* after a chunk the merged attribute may depend on which sources are left *)
SelDiff(ch, exp, res) == SeqDiff(exp, res) \ (IF ch > 0 THEN {"patch-pa", "row-a"} ELSE {})
SubsetBad(s, res) ==
  LET all == UNION {ToSet(s[i].id) : i \in 1..Len(s)}
  IN IF \E i \in 1..Len(res) : ~(ToSet(res[i].id) \subseteq all) THEN {"invented"} ELSE {}

(* the same patches in any order; where sources overlap (weak = 1) it is     *)
(* open which one is delivered, and with tolerated gaps only labels' extent  *)
CmpFields(weak) == CASE weak = 0 -> Fields [] weak = 1 -> {"v", "o", "pg"} [] OTHER -> {"o", "pg"}
Part(r, F) == [f \in F |-> r[f]]
BagBad(x, y, F) ==
  IF Len(x) # Len(y) THEN {"backends-count"}
  ELSE LET px == [i \in 1..Len(x) |-> Part(x[i], F)]
           py == [i \in 1..Len(y) |-> Part(y[i], F)]
       IN IF IsPermutation(px, py) THEN {} ELSE {"backends-differ"}

OpBad(s, ch, e) ==
  LET o == e.o IN
  CASE o.op = "chunk" ->
         IF ch = 1 THEN {} ELSE
         IF e.err # "" THEN (IF MayFail(s, o) THEN {} ELSE {"raised:" \o e.err})
         ELSE IF MustFail(s, o) THEN {"not-rejected"} ELSE
              (IF s = <<>> THEN (IF e.obs # <<>> THEN {"count"} ELSE {}) ELSE ChunkBad(s, o, e.obs))
    [] o.op = "index" ->
         IF IntOk(Len(s), o.i)
         THEN (IF e.err # "" THEN {"raised:" \o e.err}
               ELSE PatchDiff(s[IntIdx(Len(s), <<o.i>>)[1]], e.obs[1]))
         ELSE (IF e.err = "" THEN {"not-rejected"} ELSE IF e.err # "IndexError" THEN {"wrong-error:" \o e.err} ELSE {})
    [] o.op = "sort" ->
         IF e.err # "" THEN {"raised:" \o e.err}
         ELSE (IF ~IsPermutation(s, e.obs) THEN {"sort-not-a-permutation"} ELSE {})
              \cup (IF ~IsSorted(e.obs, o) THEN {"not-sorted"} ELSE {})
    [] o.op = "split" ->
         IF e.err # "" THEN {"raised:" \o e.err} ELSE SplitBad(s, o, e.parts)
    [] o.op = "map" ->
         IF e.err # "" THEN {"raised:" \o e.err}
         ELSE (IF e.out # [i \in 1..Len(s) |-> s[i].id] THEN {"map-results"} ELSE {})
              \cup (IF e.calls # Len(s) THEN {"map-call-count"} ELSE {})
    [] o.op \in {"intarr"} /\ \E i \in 1..Len(o.arr) : ~IntOk(Len(s), o.arr[i]) ->
         (IF e.err = "" THEN {"not-rejected"} ELSE {})
    [] o.op = "observe" -> IF e.err # "" THEN {"raised:" \o e.err} ELSE SeqDiff(s, e.obs)
    [] o.op = "equal" -> BagBad(e.x, e.y, CmpFields(o.weak))
    [] o.op = "outcome" -> IF (e.x = "") # (e.y = "") THEN {"backends-outcome"} ELSE {}
    [] o.op = "load" -> {}
    [] o.op = "select" /\ ch = 2 -> IF e.err # "" THEN {} ELSE SubsetBad(s, e.obs)
    [] o.op = "select" /\ ch = 1 -> IF e.err # "" THEN {"raised:" \o e.err} ELSE SelDiff(ch, Apply(s, o), e.obs)
    [] OTHER -> IF e.err # "" THEN {"raised:" \o e.err} ELSE SeqDiff(Apply(s, o), e.obs)

Shows(e) == e.err = "" /\ e.o.op \notin {"index", "split", "map", "equal", "outcome"}
(* labels of segments joined across a tolerated gap may be snapped, so the  *)
(* contents only describe them approximately from there on                   *)
Loose(s, ch, o) == o.op = "chunk" /\ (ch > 0 \/ o.tol # 15 \/ \E G \in Groups(s, o.tol) : ~OnGrid(s, G))
NextMode(s, ch, e) == IF e.o.op # "chunk" THEN ch ELSE IF ch = 2 \/ Loose(s, ch, e.o) THEN 2 ELSE 1
SpoolBad(s, ch, e) ==
  IF ~Shows(e) THEN {}
  ELSE (IF e.len # Len(e.obs) THEN {"len"} ELSE {})
       \cup (IF NextMode(s, ch, e) = 2
             THEN {"cells" : i \in {i \in 1..Len(e.obs) : e.obs[i].sane = 0 /\ e.obs[i].pg # "?"}}
             ELSE UNION {RowBad(e.obs[i]) : i \in 1..Len(e.obs)})

Moves(e) == Shows(e) /\ e.o.op # "observe"
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ st = Traces[t].init /\ chunked = 0
TraceNext ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         b == OpBad(st, chunked, e) \cup SpoolBad(st, chunked, e)
     IN /\ IF b = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([t |-> t, l |-> l, bad |-> b]))
        /\ st' = IF Moves(e) THEN e.obs ELSE st
        /\ chunked' = IF Moves(e) THEN NextMode(st, chunked, e) ELSE chunked
  /\ l' = l + 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").distinct >= Len(Traces)
=============================================================================
