------------------------------- MODULE SpoolMC -------------------------------
(* A spool as a state machine: some sources, then any sequence of select,    *)
(* slice, mask, chunk and merge.  Checked exhaustively on small constants    *)
(* (does the specification of chunk tile, invent nothing, compose?) and      *)
(* simulated to emit histories which are replayed into the real code.        *)
EXTENDS Spool, Json
CONSTANTS MaxOps, Emit
VARIABLES s, ops, s0, pieces
vars == <<s, ops, s0, pieces>>
St == 1000

Src(g, a, from, n, id) ==
  [lo |-> from * St, hi |-> (from + n - 1) * St, st |-> St, olo |-> 0, ohi |-> St, g |-> g, a |-> a,
   v |-> [k \in 1..n |-> (from + k - 1) * St], id |-> [k \in 1..n |-> id + k], x |-> <<>>,
   o |-> <<0, St>>, oc |-> <<5, 7>>, pg |-> g, pa |-> a, pst |-> St, sane |-> 1]
(* layouts: <<label, attribute, start, length>> of every source *)
Layouts == {
  << <<"a|S|N", "k", 0, 3>>, <<"a|S|N", "k", 3, 4>> >>,                             \* contiguous
  << <<"a|S|N", "k", 0, 3>>, <<"a|S|N", "k", 5, 3>> >>,                             \* gap
  << <<"a|S|N", "k", 2, 4>>, <<"a|S|N", "k", 0, 4>> >>,                             \* overlap, unordered
  << <<"a|S|N", "k", 0, 6>>, <<"a|S|N", "k", 2, 2>>, <<"a|S|N", "k", 6, 2>> >>,     \* nested
  << <<"a|S|N", "k", 0, 3>>, <<"b|S|N", "k", 1, 3>>, <<"a|S|N", "k", 3, 2>> >>,     \* two labels
  << <<"a|S|N", "k", 0, 2>>, <<"b|S|N", "j", 0, 2>>, <<"b|S|N", "k", 4, 3>> >>,
  << <<"a|S|N", "k", 0, 1>>, <<"a|S|N", "j", 1, 1>>, <<"a|S|N", "k", 2, 3>> >> }
Build(l) == [i \in 1..Len(l) |-> Src(l[i][1], l[i][2], l[i][3], l[i][4], 10 * i)]

Chunk(len, ov, kp, conf) == [op |-> "chunk", len |-> len, ov |-> ov, kp |-> kp, snap |-> 1, tol |-> 15, conf |-> conf]
OpUniverse ==
  {Chunk(n * St, v * St, kp, "drop") : n \in {2, 3}, v \in {0 - 1, 0, 1}, kp \in {0, 1}}
  \cup {Chunk(2500, 500, 1, "keep_first"), Chunk(NONE, 0, 0, "keep_first"), Chunk(NONE, 0, 0, "raise")}
  \cup {[op |-> "slice", a |-> a, b |-> NONE, c |-> c] : a \in {NONE, 1}, c \in {NONE, 0 - 1, 2}}
  \cup {[op |-> "intarr", arr |-> <<0 - 1, 0>>]}
  \cup {[op |-> "select", q |-> <<[on |-> "m", lo |-> a * St, hi |-> b]>>] : a \in {0, 2}, b \in {NONE, 3 * St, St}}
  \cup {[op |-> "select", q |-> <<[on |-> "g", vals |-> <<"b|S|N">>]>>]}
Chunked == \E i \in 1..Len(ops) : ops[i].op = "chunk"
Enabled(o) == CASE o.op = "chunk" -> ~Chunked /\ s # <<>> [] o.op = "intarr" -> Len(s) > 1 [] OTHER -> TRUE

(* --------------------------------------------- a canonical result of chunk *)
ISrc(G) == CHOOSE i \in G : \A j \in G : s[i].lo <= s[j].lo
Segment(G, o, k) ==
  LET lab == Labels(s, G, ChunkVals(s, G, o, k))
      pick(y) == LET i == CHOOSE i \in G : Has(s[i].v, y) /\ \A j \in G : Has(s[j].v, y) => s[i].lo <= s[j].lo
                 IN s[i].id[IndexOf(s[i].v, y)]
      ids == [n \in 1..Len(lab) |-> pick(lab[n])]
      own == Owners(s, G, ToSet(ids))
      as == {s[i].pa : i \in own}
      first == CHOOSE i \in own : \A j \in own : s[i].lo <= s[j].lo
      a == IF Cardinality(as) = 1 THEN CHOOSE x \in as : TRUE
           ELSE IF o.conf = "drop" THEN MISSING ELSE s[first].pa
  IN [s[first] EXCEPT !.v = lab, !.id = ids, !.lo = SetMin(ToSet(lab)), !.hi = SetMax(ToSet(lab)), !.a = a, !.pa = a]
RECURSIVE AllSegments(_, _)
AllSegments(Gs, o) ==
  IF Gs = {} THEN <<>>
  ELSE LET G == CHOOSE G \in Gs : \A H \in Gs : SetMin(G) <= SetMin(H)
           ks == ChunkKs(s, G, o)
       IN [n \in 1..Len(ks) |-> Segment(G, o, ks[n])] \o AllSegments(Gs \ {G}, o)
ChunkRes(o) == IF MustFail(s, o) THEN s ELSE AllSegments(Groups(s, o.tol), o)
Res(o) == IF o.op = "chunk" THEN ChunkRes(o) ELSE Apply(s, o)

Init == \E l \in Layouts : s = Build(l) /\ s0 = s /\ ops = <<>> /\ pieces = <<>>
Next == /\ Len(ops) < MaxOps
        /\ \E o \in OpUniverse :
             /\ Enabled(o)
             /\ s' = Res(o) /\ ops' = Append(ops, o)
             /\ pieces' = IF o.op = "chunk" THEN s ELSE pieces
        /\ UNCHANGED s0
Spec == Init /\ [][Next]_vars
View == <<s, s0, pieces, Len(ops), IF ops = <<>> THEN <<>> ELSE ops[Len(ops)]>>

(* ------------------------------------------------------------- invariants *)
AllIds(q) == UNION {ToSet(q[i].id) : i \in 1..Len(q)}
NoInvention == AllIds(s) \subseteq AllIds(s0)
OrderedUnique ==
  \A i \in 1..Len(s) : Cardinality(ToSet(s[i].id)) = Len(s[i].id) /\ \A k \in 2..Len(s[i].v) : s[i].v[k - 1] < s[i].v[k]
LabelsKept ==
  \A i \in 1..Len(s) : \A k \in 1..Len(s[i].id) :
    \E j \in 1..Len(s0) : \E m \in 1..Len(s0[j].id) : s0[j].id[m] = s[i].id[k] /\ s0[j].v[m] = s[i].v[k] /\ s0[j].g = s[i].pg
ContentsTrue == \A i \in 1..Len(s) : s[i].v # <<>> => RowBad(s[i]) \ {"contents-min", "contents-max"} = {}
JustChunked == ops # <<>> /\ ops[Len(ops)].op = "chunk"
LastOp == ops[Len(ops)]
Vals(q, g) == UNION {ToSet(q[i].v) : i \in {i \in 1..Len(q) : q[i].pg = g}}
(* every value of every group is in a segment unless partial ones are dropped *)
Tiling ==
  (JustChunked /\ ~MustFail(pieces, LastOp) /\ LastOp.kp = 1 /\ LastOp.ov >= 0) =>
     \A g \in {pieces[i].g : i \in 1..Len(pieces)} : Vals(s, g) = Vals(pieces, g)
(* without overlap no value is delivered twice *)
Disjoint ==
  (JustChunked /\ ~MustFail(pieces, LastOp) /\ LastOp.ov <= 0) =>
     \A i, j \in 1..Len(s) : (i # j /\ s[i].pg = s[j].pg) => ToSet(s[i].v) \cap ToSet(s[j].v) = {}
(* complete segments have the requested length, consecutive ones its stride *)
Lengths ==
  (JustChunked /\ ~MustFail(pieces, LastOp) /\ LastOp.len # NONE /\ LastOp.kp = 0 /\ LastOp.len % St = 0) =>
     \A i \in 1..Len(s) : Len(s[i].v) * St = LastOp.len
(* the oracle accepts what the specification itself produces *)
Satisfiable ==
  (JustChunked /\ ~MustFail(pieces, LastOp)) => ChunkBad(pieces, LastOp, s) = {}
(* merging the pieces of a chunking gives what merging the spool gives *)
MergeAgain ==
  (JustChunked /\ ~MustFail(pieces, LastOp) /\ LastOp.len # NONE /\ LastOp.kp = 1 /\ LastOp.ov = 0) =>
     \A g \in {pieces[i].g : i \in 1..Len(pieces)} :
        {Values(s, G) : G \in {G \in Groups(s, 15) : \A i \in G : s[i].g = g}}
        = {Values(pieces, G) : G \in {G \in Groups(pieces, 15) : \A i \in G : pieces[i].g = g}}
Done == Len(ops) = MaxOps
EmitInv == (Emit /\ Done) => PrintT("@@GEN " \o ToJson([init |-> s0, ops |-> ops]))
=============================================================================
