------------------------------ MODULE History -------------------------------
(***************************************************************************)
(* Provenance.  Every patch carries a history (sequence of entries) and      *)
(* attributes.  A recorded operation appends exactly one entry naming it     *)
(* (a few composite operations also record the helper they are built from);  *)
(* an unrecorded operation appends none; nothing ever drops or rewrites an   *)
(* entry; attributes the operation is not about are handed on unchanged.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

(* operations which are not processing steps: they leave the history alone *)
Unrecorded == {"append_dims", "order", "select", "iselect", "set_dims", "transpose", "T", "pipe",
               "update_attrs", "new", "update", "copy", "deepcopy", "pickle", "ufunc"}
(* composite operations: the helper they may record in addition *)
Helper(op) == CASE op = "roll" -> {"update_coords"}
                [] op = "resample" -> {"interpolate"}
                [] op = "stalta" -> {"rolling"}
                [] op = "concatenate" -> {"drop_private_coords"}
                [] op = "ufunc" -> {"make_broadcastable_to"}
                [] op = "whiten" -> {"dft", "idft", "pad", "select"}
                [] op = "slope_filter" -> {"dft", "idft", "real"}
                [] OTHER -> {}
(* name an operation is recorded under *)
Recorded(op) == CASE op = "assign_coords" -> "update_coords"
                  [] op = "iresample" -> "resample"
                  [] OTHER -> op
(* operations which may return the very same patch when there is nothing to do *)
MayBeNoop == {"sort_coords", "snap_coords", "squeeze", "drop_coords", "drop_private_coords", "dropna", "make_broadcastable_to", "convert_units", "simplify_units"}

(* attributes an operation is about *)
Retype == {"all", "any", "angle", "dft", "idft", "stft", "istft", "differentiate", "integrate", "hilbert", "envelope", "full",
           "normalize", "standardize", "phase_weighted_stack", "spectrogram", "stalta", "kurtosis", "velocity_to_strain_rate",
           "velocity_to_strain_rate_edgeless", "fbe", "radians_to_strain", "convert_units", "set_units", "simplify_units", "ufunc",
           "correlate", "tau_p", "dispersion_phase_shift", "slope_filter", "aggregate", "where"}
About(op) == (IF op \in Retype THEN {"data_type", "data_units"} ELSE {})
             \cup (IF op \in {"velocity_to_strain_rate", "velocity_to_strain_rate_edgeless"} THEN {"gauge_length"} ELSE {})

IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]

(* the clauses of one step: h, h2 = sequences of [n : operation name, x : full text] *)
StepBad(op, same, h, h2) ==
  LET new == SubSeq(h2, Len(h) + 1, Len(h2))
      k == Len(new)
  IN IF ~IsPrefix(h, h2) THEN {"history-rewritten"}
     ELSE IF op \in Unrecorded
          THEN (IF \E i \in 1..k : new[i].n \notin Helper(op) THEN {"history-unexpected-entry"} ELSE {})
     ELSE IF k = 0 THEN (IF same /\ op \in MayBeNoop THEN {} ELSE {"history-not-recorded"})
     ELSE (IF new[k].n # Recorded(op) THEN {"history-wrong-name"} ELSE {})
          \cup (IF \E i \in 1..(k - 1) : new[i].n \notin Helper(op) THEN {"history-extra-entry"} ELSE {})
          \cup (IF k > 1 + Cardinality(Helper(op)) THEN {"history-too-many"} ELSE {})

(* ---------------------------- design model ------------------------------ *)
CONSTANTS Ops, MaxObj
VARIABLES obj          \* Seq of [par, op, h]
Init == obj = <<[par |-> 0, op |-> "init", h |-> <<>>]>>
Derive(i, op) ==
  /\ Len(obj) < MaxObj
  /\ LET h == obj[i].h
         e == [n |-> Recorded(op), x |-> op, k |-> "main"]
         hs == {[n |-> z, x |-> z, k |-> "helper"] : z \in Helper(op)}
         outs == IF op \in Unrecorded THEN {h} \cup {Append(h, z) : z \in hs}
                 ELSE {Append(h, e)} \cup {Append(Append(h, z), e) : z \in hs}
     IN \E h2 \in outs : obj' = Append(obj, [par |-> i, op |-> op, h |-> h2])
Next == \E i \in 1..Len(obj), op \in Ops : Derive(i, op)
Spec == Init /\ [][Next]_obj

RECURSIVE Path(_)
Path(i) == IF i = 1 THEN <<>> ELSE Append(Path(obj[i].par), obj[i].op)
(* reading the history back gives exactly the recorded operations applied, in order *)
Lineage == \A i \in 1..Len(obj) :
   LET rec == SelectSeq(Path(i), LAMBDA o : o \notin Unrecorded)
       main == SelectSeq(obj[i].h, LAMBDA e : e.k = "main")
   IN [j \in 1..Len(main) |-> main[j].x] = rec
StepsOk == \A i \in 2..Len(obj) : StepBad(obj[i].op, FALSE, obj[obj[i].par].h, obj[i].h) = {}
Grow == [][\A i \in 1..Len(obj) : obj'[i] = obj[i]]_obj
=============================================================================
