----------------------------- MODULE DispatchMC -----------------------------
(***************************************************************************)
(* The mechanism behind format detection: candidates are tried in some      *)
(* order (a hint first, then those preferring the extension, then a list    *)
(* which is computed once and kept) until one of them claims the file.      *)
(* Candidates may fail in arbitrary ways on files which are not theirs.     *)
(* Registering must forget what was computed before.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Formats, Exts, MaxSteps, ClearOnRegister
VARIABLES reg, valid, kept, hint, steps, last
vars == <<reg, valid, kept, hint, steps, last>>
Junk == "junk"
None == "none"
Claims(f, file) == file = f
Orders(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => s[i] # s[j]}
RECURSIVE First(_, _)
First(s, file) == IF s = <<>> THEN None ELSE IF Claims(Head(s), file) THEN Head(s) ELSE First(Tail(s), file)
Init == reg = {} /\ valid = FALSE /\ kept = <<>> /\ hint = None /\ steps = 0 /\ last = [q |-> None, a |-> None]
Register(f) == /\ f \notin reg /\ reg' = reg \cup {f}
               /\ valid' = (valid /\ ~ClearOnRegister)
               /\ UNCHANGED <<kept, hint, last>>
Detect(file, useExt, useHint) ==
  \E base \in (IF ~valid THEN Orders(reg) ELSE {kept}) :
  \E ext \in SUBSET reg :
    LET pre == IF useHint /\ hint # None THEN <<hint>> ELSE <<>>
        first == IF useExt /\ ext # {} THEN CHOOSE o \in Orders(ext) : TRUE ELSE <<>>
        a == First(pre \o first \o base, file)
    IN /\ kept' = base /\ valid' = TRUE
       /\ hint' = IF a = None THEN hint ELSE a
       /\ last' = [q |-> file, a |-> a]
       /\ UNCHANGED reg
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \/ \E f \in Formats : Register(f)
           \/ \E file \in Formats \cup {Junk}, e \in BOOLEAN, h \in BOOLEAN : Detect(file, e, h)
Spec == Init /\ [][Next]_vars
(* the answer is the format of the content, if it is registered *)
Right == [][last' # last => last'.a = (IF last'.q \in reg THEN last'.q ELSE None)]_vars
=============================================================================
