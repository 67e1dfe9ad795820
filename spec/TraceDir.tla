------------------------------ MODULE TraceDir ------------------------------
(* Verdicts on histories of directories, their files and their index (C13). *)
(* Events: write (a file appears or changes, no labels = unreadable),       *)
(* update (completed, possibly with files written meanwhile), crash         *)
(* (interrupted update), open (a new spool, no update), reindex (files      *)
(* removed, index deleted, update).  Every patch carries a label, which its *)
(* tag, its time and its data repeat.                                       *)
EXTENDS NDArray, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, disk, old, idx, known
tvars == <<t, l, disk, old, idx, known>>
NULL == 2000000001

RowsOf(obs, f) == FilterIdx([i \in 1..Len(obs) |-> obs[i].f = f], 1, Len(obs))
Rows(obs, f) == [k \in 1..Len(RowsOf(obs, f)) |-> obs[RowsOf(obs, f)[k]].row]
Ids(obs, f) == [k \in 1..Len(RowsOf(obs, f)) |-> obs[RowsOf(obs, f)[k]].id]
SameBag(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) :
  Cardinality({k \in 1..Len(x) : x[k] = x[i]}) = Cardinality({k \in 1..Len(y) : y[k] = x[i]})
RECURSIVE PutAll(_, _)
PutAll(d, ws) == IF ws = <<>> THEN d ELSE PutAll((Head(ws).f :> Head(ws).labels) @@ d, Tail(ws))
Labels(d, f) == IF f \in DOMAIN d THEN d[f] ELSE <<>>
During(e, f) == {e.o.during[k].labels : k \in {k \in 1..Len(e.o.during) : e.o.during[k].f = f}}
Paths(obs) == {obs[i].f : i \in 1..Len(obs)}

(* does obs describe exactly the files of d, where files written meanwhile  *)
(* may be seen as before, as after or in between ?                          *)
DirBad(d, e) ==
  LET fs == (DOMAIN d) \cup Paths(e.obs) \cup {e.o.during[k].f : k \in 1..Len(e.o.during)}
      steady(f) == During(e, f) = {}
  IN UNION {
       IF steady(f)
       THEN (IF SameBag(Rows(e.obs, f), Labels(d, f)) THEN {}
             ELSE IF Len(Rows(e.obs, f)) < Len(Labels(d, f)) THEN {"missing"}
             ELSE IF Len(Rows(e.obs, f)) > Len(Labels(d, f)) THEN {"duplicate-or-stale"} ELSE {"wrong-rows"})
            \cup (IF e.loaded = 1 /\ ~SameBag(Ids(e.obs, f), Labels(d, f)) THEN {"wrong-patches"} ELSE {})
       ELSE IF \E x \in {Labels(d, f)} \cup During(e, f) : SameBag(Rows(e.obs, f), x) THEN {} ELSE {"neither-old-nor-new"}
       : f \in fs}
     \cup {"row-time" : i \in {i \in 1..Len(e.obs) : e.obs[i].lo # e.obs[i].elo}}
     \cup (IF e.loaded = 1 /\ \E i \in 1..Len(e.obs) : e.obs[i].id # e.obs[i].row THEN {"row-patch"} ELSE {})
     \cup (IF e.len # Len(e.obs) THEN {"len"} ELSE {})

OpBad(e) ==
  LET o == e.o IN
  CASE o.op = "write" -> {}
    [] o.op = "crash" -> {}
    [] o.op = "update" -> IF e.err # "" THEN {"raised:" \o e.err} ELSE DirBad(disk, e)
    [] o.op = "reindex" -> IF e.err # "" THEN {"raised:" \o e.err} ELSE DirBad(PutAll(<<>>, o.files), e)
    [] o.op = "open" ->
         IF known = "dirty" THEN {}
         ELSE IF e.err # "" THEN {"raised:" \o e.err}
         ELSE IF known = "none" THEN DirBad(disk, e)
         ELSE (IF ~SameBag([i \in 1..Len(e.obs) |-> <<e.obs[i].f, e.obs[i].row>>], idx) THEN {"reopened-differs"} ELSE {})
    [] OTHER -> {}

TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ disk = <<>> /\ old = 0 /\ idx = <<>> /\ known = "none"
TraceNext ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         o == e.o
         b == OpBad(e)
         full == o.op \in {"update", "reindex"} \/ (o.op = "open" /\ known = "none")
     IN /\ IF b = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([t |-> t, l |-> l, bad |-> b]))
        /\ disk' = CASE o.op = "write" -> (o.f :> o.labels) @@ disk
                     [] o.op \in {"update", "crash"} -> PutAll(disk, o.during)
                     [] o.op = "reindex" -> PutAll(<<>>, o.files)
                     [] OTHER -> disk
        /\ idx' = IF full /\ e.err = "" THEN [i \in 1..Len(e.obs) |-> <<e.obs[i].f, e.obs[i].row>>] ELSE idx
        (* an index only exists once something readable was found *)
        /\ known' = IF full /\ e.err = "" THEN (IF e.obs = <<>> THEN (IF known = "idx" /\ o.op # "reindex" THEN "idx" ELSE "none") ELSE "idx")
                    ELSE IF o.op = "crash" THEN "dirty" ELSE known
  /\ l' = l + 1 /\ UNCHANGED <<t, old>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").distinct >= Len(Traces)
=============================================================================
