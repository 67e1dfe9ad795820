----------------------------- MODULE TraceFile -----------------------------
(* Verdicts for C14.  The state maps file names to stored records.  Events:  *)
(* write [f, ps, grows], read/spool [f, got], scan [f, keys, got],           *)
(* query [f, q, got], copy [f, to] (write what was read), badwrite (a write  *)
(* which raises leaves everything stored before as it was).                  *)
EXTENDS FileIO, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, st
tvars == <<t, l, st>>
HasF(r, k) == k \in DOMAIN r
File(s, f) == IF f \in DOMAIN s THEN s[f] ELSE <<>>
Bad(s, e) ==
  IF e.err # "" THEN (IF e.may = 1 THEN {} ELSE {"raised:" \o e.o.op \o ":" \o e.err})
  ELSE CASE e.o.op \in {"write", "copy", "badwrite"} -> {}
         [] e.o.op \in {"read", "spool"} -> ReadBad(File(s, e.o.f), e.got)
         [] e.o.op = "scan" -> ScanBad(File(s, e.o.f), e.got, e.keys)
         [] e.o.op = "query" -> QueryBad(File(s, e.o.f), e.o.q, e.got)
Optional(ps) == [i \in 1..Len(ps) |-> [ps[i] EXCEPT !.sup = 1]]
Step(s, e) ==
  IF e.o.op = "badwrite"  \* fails; what came before the offending patch may be in the file
  THEN [s EXCEPT ![e.o.f] = Supersede(@, e.ps) \o Optional(e.ps)]
  ELSE IF e.err # "" THEN s
  ELSE CASE e.o.op = "write" -> [x \in DOMAIN s \cup {e.o.f} |-> IF x = e.o.f THEN Write(File(s, x), e.ps, e.o.grows = 1) ELSE s[x]]
         [] e.o.op = "copy" -> [x \in DOMAIN s \cup {e.o.to} |-> IF x = e.o.to THEN Write(File(s, x), e.ps, e.o.grows = 1) ELSE s[x]]
         [] OTHER -> s
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
TraceNext ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         b == Bad(st, e)
     IN /\ IF b = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([t |-> t, l |-> l, bad |-> b]))
        /\ st' = Step(st, e)
  /\ l' = l + 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").distinct >= Len(Traces)
=============================================================================
