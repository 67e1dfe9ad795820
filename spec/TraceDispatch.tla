--------------------------- MODULE TraceDispatch ---------------------------
(* Verdicts for C15: every recorded call is compared with Dispatch.tla.     *)
EXTENDS Dispatch, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, reg, files
tvars == <<t, l, reg, files>>
Base == {[n |-> "DASDAE", ver |-> "1", write |-> 1, blind |-> 0, kind |-> "file"],
         [n |-> "PICKLE", ver |-> "", write |-> 1, blind |-> 0, kind |-> "file"]}
Vers == <<"", "1", "2", "3", "9">>
RankOf(v) == CHOOSE i \in 1..Len(Vers) : Vers[i] = v
Newest(n) == LET S == Named(reg, n) IN CHOOSE g \in S : \A h \in S : RankOf(h.ver) <= RankOf(g.ver)

WriteErr(e) ==
  IF HintBad(reg, e.o.gf, e.o.gv) THEN "UnknownFiberFormatError"
  ELSE LET g == IF e.o.gv = "" THEN Newest(e.o.gf) ELSE CHOOSE h \in Some(reg, e.o.gf, e.o.gv) : TRUE
       IN IF g.write = 1 THEN "" ELSE "NotImplementedError"
WriteVer(e) == IF e.o.gv = "" THEN Newest(e.o.gf).ver ELSE e.o.gv

(* reading with both hints given trusts them, whatever the file is *)
Trusted(e) == e.o.op = "read" /\ e.o.gf # "" /\ e.o.gv # ""
Want(e) == Outcome(reg, files, e.o.f, e.o.gf, e.o.gv)
Corrupt(e) == e.o.f \in DOMAIN files /\ files[e.o.f].bad = 1
Loads(e) ==
  LET w == Want(e) IN
  IF w # "" THEN (IF Trusted(e) /\ w = "UnknownFiberFormatError"
                  THEN (IF e.err # "" \/ ~HintBad(reg, e.o.gf, e.o.gv) THEN {} ELSE {"read-despite-hint"})
                  ELSE IF e.err = w THEN {} ELSE IF e.err = "" THEN {e.o.op \o "-accepted:" \o w} ELSE {e.o.op \o "-error:" \o e.err \o "-not-" \o w})
  ELSE IF Corrupt(e) THEN (IF e.err = "" /\ e.ids # <<>> THEN {"corrupt-read"} ELSE {})
  ELSE IF e.err # "" THEN {e.o.op \o "-raised:" \o e.err}
  ELSE IF SameBag(e.ids, files[e.o.f].ids) THEN {} ELSE {e.o.op \o "-patches"}
Bad(e) ==
  CASE e.o.op = "register" -> (IF e.err = "" THEN {} ELSE {"register-raised"})
    [] e.o.op = "make" -> {}
    [] e.o.op = "format" ->
         (IF e.err # Want(e) THEN {"format-" \o (IF e.err = "" THEN "accepted" ELSE e.err) \o "-not-" \o (IF Want(e) = "" THEN "recognised" ELSE Want(e))}
          ELSE IF e.err # "" THEN {}
          ELSE IF e.fmt = files[e.o.f].n /\ e.ver = files[e.o.f].ver THEN {} ELSE {"format-wrong"})
    [] e.o.op = "read" -> Loads(e)
    [] e.o.op = "spool" ->
         (IF e.o.f \notin DOMAIN files THEN (IF e.err # "" THEN {} ELSE {"spool-of-nothing"})
          ELSE IF files[e.o.f].k # "data" \/ ~Reads(reg, files[e.o.f]) THEN (IF e.err # "" \/ e.ids = <<>> THEN {} ELSE {"spool-accepted"})
          ELSE Loads(e))
    [] e.o.op = "scan" ->
         (IF e.err # "" THEN {"scan-raised:" \o e.err}
          ELSE IF SameBag(e.ids, AllIds(reg, files, e.o.sub)) THEN {} ELSE {"scan-patches"})
    [] e.o.op = "write" ->
         (IF e.err = WriteErr(e) THEN {} ELSE {"write-" \o (IF e.err = "" THEN "accepted" ELSE e.err) \o "-not-" \o (IF WriteErr(e) = "" THEN "done" ELSE WriteErr(e))})
Put(fs, f, r) == [x \in DOMAIN fs \cup {f} |-> IF x = f THEN r ELSE fs[x]]
AddTo(fs, f, p) == IF p = "" THEN fs ELSE [fs EXCEPT ![p].sub = Append(@, f)]
Rec(r) == [k |-> r.k, n |-> r.n, ver |-> r.ver, ids |-> r.ids, bad |-> r.bad, sub |-> <<>>]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ reg = Base /\ files = <<>>
TraceNext ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         b == Bad(e)
     IN /\ IF b = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([t |-> t, l |-> l, bad |-> b]))
        /\ reg' = IF e.o.op = "register" THEN reg \cup {e.file} ELSE reg
        /\ files' = CASE e.o.op = "make" -> AddTo(Put(files, e.o.f, Rec(e.file)), e.o.f, e.parent)
                      [] e.o.op = "write" /\ e.err = "" /\ WriteErr(e) = "" ->
                           Put(files, e.o.f, [Rec(e.file) EXCEPT !.n = e.o.gf, !.ver = WriteVer(e)])
                      [] OTHER -> files
  /\ l' = l + 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").distinct >= Len(Traces)
=============================================================================
