---------------------------- MODULE TraceHistory ----------------------------
(* Verdicts for C17.  Events: [o : [op], err, src, dst, same, h0, h1, a0, a1, *)
(* set : attribute -> requested value, gone : attributes declared replaced].  *)
(* The histories of all patches seen are part of the state: a patch must be   *)
(* handed over with the history it was published with.                        *)
EXTENDS History, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, hist
tvars == <<t, l, hist, obj>>

AttrBad(e) ==
  LET free == About(e.o.op) \cup {e.free[i] : i \in 1..Len(e.free)}
      names == (DOMAIN e.a0 \cup DOMAIN e.set) \ free
  IN {"attr-lost:" \o n : n \in {x \in names : x \notin DOMAIN e.a1}}
     \cup {"attr-changed:" \o n : n \in {x \in names \cap DOMAIN e.a1 :
              IF x \in DOMAIN e.set THEN e.a1[x] # e.set[x] ELSE e.a1[x] # e.a0[x]}}
     \cup {"attr-invented:" \o n : n \in (DOMAIN e.a1 \ DOMAIN e.a0) \ (free \cup DOMAIN e.set)}

Bad(h, e) ==
  IF e.err # "" THEN {} ELSE
  (IF e.src \in DOMAIN h /\ h[e.src] # e.h0 THEN {"source-history-changed"} ELSE {})
  \cup (IF e.resets = 1 THEN {} ELSE StepBad(e.o.op, e.same = 1, e.h0, e.h1))
  \cup (IF e.resets = 0 /\ Len(e.h1) > Len(e.h0) /\ e.o.op \notin Unrecorded
        THEN {"history-argument-missing:" \o e.kw[i] : i \in {j \in 1..Len(e.kw) : e.kw[j] \notin {e.kwin[m] : m \in 1..Len(e.kwin)}}}
        ELSE {})
  \cup AttrBad(e)

TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ hist = <<>> /\ obj = <<>>
TraceNext ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         b == Bad(hist, e)
     IN /\ IF b = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([t |-> t, l |-> l, bad |-> b]))
        /\ hist' = IF e.err # "" THEN hist
                   ELSE [x \in DOMAIN hist \cup {e.src, e.dst} |-> IF x = e.dst THEN e.h1 ELSE IF x = e.src THEN e.h0 ELSE hist[x]]
  /\ l' = l + 1 /\ UNCHANGED <<t, obj>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").distinct >= Len(Traces)
=============================================================================
