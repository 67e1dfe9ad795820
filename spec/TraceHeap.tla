----------------------------- MODULE TraceHeap ------------------------------
(* Verdicts for C02.  An event lists the digests of all objects alive after  *)
(* an operation (post) and of those created just before it (pre: arguments). *)
(* The heap only ever grows, and no digest ever changes.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, heap
tvars == <<t, l, heap>>

Bad(h, e) ==
  LET old == [x \in DOMAIN h \cup DOMAIN e.pre |-> IF x \in DOMAIN e.pre THEN e.pre[x] ELSE h[x]]
  IN {"vanished:" \o x : x \in {y \in DOMAIN old : y \notin DOMAIN e.post}}
     \cup {"changed:" \o x : x \in {y \in DOMAIN old \cap DOMAIN e.post : e.post[y] # old[y]}}

TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ heap = Traces[t].init
TraceNext ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         b == Bad(heap, e)
     IN /\ IF b = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([t |-> t, l |-> l, bad |-> b]))
        /\ heap' = e.post
  /\ l' = l + 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").distinct >= Len(Traces)
=============================================================================
