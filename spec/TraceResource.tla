--------------------------- MODULE TraceResource ---------------------------
(* Verdicts for C16: after every call, returning or raising, exactly the     *)
(* files the caller opened are open, and they still are.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, user
tvars == <<t, l, user>>
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Extra(s, u) == \E i \in 1..Len(s) : Count(s, s[i]) > Count(u, s[i])
Now(e) == CASE e.o.op = "uopen" -> Append(user, e.o.f)
            [] e.o.op = "uclose" -> SelectSeq(user, LAMBDA x : x # e.o.f)
            [] OTHER -> user
Bad(e) ==
  (IF Extra(e.leak, Now(e)) THEN {"left-open:" \o e.o.op \o (IF e.err = "" THEN "" ELSE ":raising")} ELSE {})
  \cup (IF Extra(Now(e), e.leak) \/ e.dead = 1 THEN {"closed-callers-file:" \o e.o.op} ELSE {})
  \cup (IF e.warn = 1 THEN {"left-to-the-collector:" \o e.o.op} ELSE {})
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ user = <<>>
TraceNext ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         b == Bad(e)
     IN /\ IF b = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([t |-> t, l |-> l, bad |-> b]))
        /\ user' = Now(e)
  /\ l' = l + 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == TLCGet("stats").distinct >= Len(Traces)
=============================================================================
