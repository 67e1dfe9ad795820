----------------------------- MODULE DirIndexMC -----------------------------
(* The update protocol of a directory index, interleaved with files being   *)
(* written, with interruptions at any step and with several spools.         *)
(* An update looks at every file not older than the stamp of the last        *)
(* completed update, drops what the index knows about those, appends what    *)
(* it found and finally stores the time it started at.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Files, MaxWrites, MaxUpdates, StampEarly, DropOld, Emit
VARIABLES ver, mtime, idx, stamp, clock, pc, start, seen, found, late, clean, log, nw, nu
vars == <<ver, mtime, idx, stamp, clock, pc, start, seen, found, late, clean, log, nw, nu>>

Init ==
  /\ ver = [f \in Files |-> 0] /\ mtime = [f \in Files |-> 0]
  /\ idx = {} /\ stamp = 0 /\ clock = 1 /\ pc = "idle" /\ start = 0
  /\ seen = {} /\ found = {} /\ late = {} /\ clean = FALSE /\ log = <<>> /\ nw = 0 /\ nu = 0
Note(x) == log' = Append(log, x)

Write(f) ==
  /\ nw < MaxWrites /\ nw' = nw + 1
  /\ ver' = [ver EXCEPT ![f] = @ + 1] /\ mtime' = [mtime EXCEPT ![f] = clock] /\ clock' = clock + 1
  /\ late' = IF pc = "idle" THEN late ELSE late \cup {f}
  /\ clean' = FALSE /\ Note([a |-> "write", f |-> f, at |-> pc])
  /\ UNCHANGED <<idx, stamp, pc, start, seen, found, nu>>
Start ==
  /\ pc = "idle" /\ nu < MaxUpdates /\ nu' = nu + 1 /\ pc' = "scan" /\ start' = clock /\ clock' = clock + 1
  /\ seen' = {} /\ found' = {} /\ late' = {} /\ Note([a |-> "start", f |-> "", at |-> "idle"])
  /\ UNCHANGED <<ver, mtime, idx, stamp, clean, nw>>
Scan(f) ==
  /\ pc = "scan" /\ f \notin seen /\ seen' = seen \cup {f}
  /\ found' = IF ver[f] > 0 /\ mtime[f] >= stamp THEN found \cup {<<f, ver[f]>>} ELSE found
  /\ pc' = IF seen' = Files THEN "drop" ELSE "scan"
  /\ UNCHANGED <<ver, mtime, idx, stamp, clock, start, late, clean, log, nw, nu>>
Drop ==
  /\ pc = "drop" /\ pc' = "append"
  /\ idx' = IF DropOld THEN {r \in idx : ~\E x \in found : x[1] = r[1]} ELSE idx
  /\ UNCHANGED <<ver, mtime, stamp, clock, start, seen, found, late, clean, log, nw, nu>>
AppendRows ==
  /\ pc = "append" /\ pc' = "stamp" /\ idx' = idx \cup found
  /\ UNCHANGED <<ver, mtime, stamp, clock, start, seen, found, late, clean, log, nw, nu>>
Stamp ==
  /\ pc = "stamp" /\ pc' = "idle"
  /\ stamp' = IF found = {} THEN stamp ELSE IF StampEarly THEN start ELSE clock
  /\ clean' = (late = {}) /\ Note([a |-> "done", f |-> "", at |-> "stamp"])
  /\ UNCHANGED <<ver, mtime, idx, clock, start, seen, found, late, nw, nu>>
Crash ==
  /\ pc # "idle" /\ pc' = "idle" /\ clean' = FALSE /\ Note([a |-> "crash", f |-> "", at |-> pc])
  /\ UNCHANGED <<ver, mtime, idx, stamp, clock, start, seen, found, late, nw, nu>>
Next == (\E f \in Files : Write(f) \/ Scan(f)) \/ Start \/ Drop \/ AppendRows \/ Stamp \/ Crash
Spec == Init /\ [][Next]_vars
View == <<ver, mtime, idx, stamp, clock, pc, start, seen, found, late, clean, nw, nu>>

Current == {<<f, ver[f]>> : f \in {f \in Files : ver[f] > 0}}
(* a completed update during which nothing was written knows every file      *)
Fresh == (pc = "idle" /\ clean) => idx = Current
(* no file is known twice *)
Once == \A x, y \in idx : x[1] = y[1] => x = y
(* a file written during a completed update is known as before or as after   *)
NoGhosts == \A x \in idx : x[2] <= ver[x[1]] /\ x[2] > 0
Done == nw = MaxWrites /\ pc = "idle" /\ nu = MaxUpdates
EmitInv == (Emit /\ Done) => PrintT("@@GEN " \o ToJson([log |-> log]))
=============================================================================
