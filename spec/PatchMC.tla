------------------------------ MODULE PatchMC ------------------------------
(* The patch as a state machine: an initial patch and any sequence of       *)
(* structural operations.  Used exhaustively (small constants) to check the *)
(* design invariants and in simulation to emit behaviours for replay.       *)
EXTENDS Patch, Json

CONSTANTS MaxOps, Inits, Emit

VARIABLES p, ops, p0
vars == <<p, ops, p0>>

(* initial patches: unique ids row-major *)
MkCoords(tv, dv, extra) ==
  LET base == [time |-> [d |-> <<"time">>, v |-> tv],
               distance |-> [d |-> <<"distance">>, v |-> dv]]
  IN IF extra = "none" THEN base
     ELSE IF extra = "aux"
     THEN [n \in {"time", "distance", "ta", "da"} |->
             IF n = "ta" THEN [d |-> <<"time">>, v |-> [i \in 1..Len(tv) |-> 1000 * ((7 * i) % 5)]]
             ELSE IF n = "da" THEN [d |-> <<"distance">>, v |-> [i \in 1..Len(dv) |-> 5000 - 1000 * i]]
             ELSE base[n]]
     ELSE [n \in {"time", "distance", "qq"} |->
             IF n = "qq" THEN [d |-> <<"distance", "time">>,
                               v |-> [k \in 1..(Len(tv) * Len(dv)) |-> 100 + k]]
             ELSE base[n]]
Mk(tv, dv, extra) ==
  [dims |-> <<"time", "distance">>, coords |-> MkCoords(tv, dv, extra),
   data |-> [k \in 1..(Len(tv) * Len(dv)) |-> k]]
InitSet ==
  {Mk(tv, dv, e) : tv \in {<<0, 1000, 2000>>, <<2000, 1000, 0>>, <<0, 1000, 4000>>, <<3000, 0, 1000>>},
                   dv \in {<<0, 1000>>, <<3000, 1000>>},
                   e \in {"none", "aux", "qq"}}

OneD(q) == {n \in Names(q) : Len(q.coords[n].d) = 1}
VSet(q, n) == ToSet(q.coords[n].v)
Q(n, m, lo, hi) == [c |-> n, mode |-> m, lo |-> lo, hi |-> hi]
QA(n, m, a) == [c |-> n, mode |-> m, a |-> a]
OpUniverse(q) ==
  LET dims == ToSet(q.dims) IN
    {[op |-> "select", q |-> <<Q(n, "range", lo, hi)>>] :
        n \in OneD(q), lo \in {NONE, 500, 1000}, hi \in {NONE, 1000, 2500}}
  \cup {[op |-> "select", q |-> <<Q(n, "samp", lo, hi)>>] :
        n \in dims, lo \in {NONE, 1}, hi \in {NONE, 0-1, 2}}
  \cup {[op |-> "select", q |-> <<QA(n, "vals", <<1000, 3000>>)>>] : n \in OneD(q)}
  \cup {[op |-> "order", q |-> <<QA(n, "sidx", <<1, 0>>)>>] : n \in dims}
  \cup {[op |-> "transpose", dims |-> Rev(q.dims)]}
  \cup {[op |-> "sort", names |-> <<n>>, rev |-> r] : n \in OneD(q), r \in {0, 1}}
  \cup {[op |-> "flip", dims |-> <<n>>, fc |-> 1] : n \in dims}
  \cup {[op |-> "flip", dims |-> q.dims, fc |-> 1]}
  \cup {[op |-> "rename", m |-> (n :> "newdim")] : n \in {m \in dims : m \in {"time", "distance"}
                                             /\ "newdim" \notin Names(q)}}
  \cup {[op |-> "decimate", d |-> n, k |-> 2] : n \in {m \in dims : DimLen(q, m) > 0}}
  \cup {[op |-> "append", d |-> "extra", v |-> <<1000, 2000>>] : x \in IF Len(q.dims) < 3 /\ ~("extra" \in Names(q)) THEN {1} ELSE {}}
  \cup {[op |-> "squeeze", dims |-> <<n>>] : n \in {m \in dims : DimLen(q, m) = 1 /\ Len(q.dims) > 1}}
  \cup {[op |-> "setdim", old |-> n, new |-> m] : n \in dims \ {"extra"}, m \in {x \in OneD(q) \ dims : TRUE}}
  \cup {[op |-> "dropcoords", names |-> <<n>>] : n \in Names(q) \ dims}

Enabled(q, o) ==
  CASE o.op = "setdim" -> q.coords[o.new].d = <<o.old>>
    [] OTHER -> TRUE

Init == /\ p \in InitSet /\ ops = <<>> /\ p0 = p
Next == /\ Len(ops) < MaxOps
        /\ \E o \in OpUniverse(p) :
             /\ Enabled(p, o)
             /\ p' = Apply(p, o)
             /\ ops' = Append(ops, o)
        /\ UNCHANGED p0
Spec == Init /\ [][Next]_vars

Conform == WellFormed(p)
(* Sub-labels: every remaining sample keeps the label it started with, for  *)
(* every coordinate that has not been renamed or newly added.               *)
LabelsKept ==
  LET keep == {n \in Names(p) \cap Names(p0) : p.coords[n].d # <<>>} IN
  \A l \in Labels(p) : l[2] \in keep => l \in Labels(p0)
NoNewSamples == ToSet(p.data) \subseteq ToSet(p0.data)
(* depth-bounded view: the operation history does not multiply states *)
View == <<p, p0, Len(ops)>>
Done == Len(ops) = MaxOps
EmitInv == (Emit /\ Done) => PrintT("@@GEN " \o ToJson([init |-> p0, ops |-> ops]))
=============================================================================
