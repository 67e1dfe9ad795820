----------------------------- MODULE ResourceMC -----------------------------
(***************************************************************************)
(* Life of file handles during one call: a manager opens handles on demand, *)
(* keeps one per required type, nested managers delegate to the outermost   *)
(* one, candidates may raise anywhere, and leaving the outermost scope      *)
(* closes whatever was opened.  Handles given by the caller are never       *)
(* closed and the call must not leave anything else open.                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Types, MaxDepth, MaxUser
VARIABLES depth,    \* nesting of scopes (0: no call in progress)
          kept,     \* handles kept by the outermost manager (types)
          open,     \* open handles: <<"lib", type>> or <<"user", k>>
          user      \* handles the caller holds
vars == <<depth, kept, open, user>>
Init == depth = 0 /\ kept = {} /\ open = {} /\ user = {}
UserOpen == /\ depth = 0 /\ Cardinality(user) < MaxUser
            /\ \E k \in 1..MaxUser : k \notin user /\ user' = user \cup {k} /\ open' = open \cup {<<"user", k>>}
            /\ UNCHANGED <<depth, kept>>
UserClose == /\ depth = 0 /\ \E k \in user : user' = user \ {k} /\ open' = open \ {<<"user", k>>}
             /\ UNCHANGED <<depth, kept>>
Enter == depth < MaxDepth /\ depth' = depth + 1 /\ UNCHANGED <<kept, open, user>>
Get(ty) == /\ depth > 0 /\ kept' = kept \cup {ty}
           /\ open' = IF ty \in kept THEN open ELSE open \cup {<<"lib", ty>>}
           /\ UNCHANGED <<depth, user>>
Fail == depth > 0 /\ UNCHANGED vars                     \* opening or using a handle raises and is caught
LeaveInner == depth > 1 /\ depth' = depth - 1 /\ UNCHANGED <<kept, open, user>>
LeaveOuter == /\ depth = 1 /\ depth' = 0 /\ kept' = {}   \* normally or by an exception
              /\ open' = open \ {<<"lib", ty>> : ty \in kept} /\ UNCHANGED user
Next == UserOpen \/ UserClose \/ Enter \/ (\E ty \in Types : Get(ty)) \/ Fail \/ LeaveInner \/ LeaveOuter
Spec == Init /\ [][Next]_vars
NoLeak == depth = 0 => open = {<<"user", k>> : k \in user}
UserKept == \A k \in user : <<"user", k>> \in open
OnePerType == Cardinality({o \in open : o[1] = "lib"}) <= Cardinality(Types)
=============================================================================
