-------------------------------- MODULE Spool --------------------------------
(***************************************************************************)
(* A spool is a sequence of records.  A record joins what the spool's      *)
(* contents table says about a patch with the patch it delivers:           *)
(*   lo, hi, st   : extent and step of the main dimension in the contents  *)
(*   olo, ohi     : extent of the other dimension in the contents          *)
(*   g, a         : group label and (non group) attribute in the contents  *)
(*   v, id, x     : main dimension values, identity of each slice, values  *)
(*                  of an associated coordinate (<<>> if there is none)    *)
(*   o, oc        : other dimension values and identity of each column     *)
(*   pg, pa, pst  : group label, attribute and step of the patch itself    *)
(* All numbers are integers in milli units.  Every source slice carries a  *)
(* unique id, so a spool history can be followed sample by sample.         *)
(***************************************************************************)
EXTENDS NDArray

NULL == 2000000001
OFF  == -2000000001
NONE == 2000000002
MISSING == ""

Abs(x) == IF x < 0 THEN -x ELSE x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == SetMin(S) IN <<m>> \o SortSet(S \ {m})
Pick(s, idx) == [k \in 1..Len(idx) |-> s[idx[k]]]

(* ------------------------------------------------------------- indexing *)
(* Python slice a:b:c (0-based, NONE for an omitted part) as 1-based picks *)
SliceIdx3(n, a, b, c) ==
  LET st == IF c = NONE THEN 1 ELSE c
      clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
      norm(x) == IF x < 0 THEN x + n ELSE x
      start == IF st > 0 THEN (IF a = NONE THEN 0 ELSE clip(norm(a), 0, n))
               ELSE (IF a = NONE THEN n - 1 ELSE clip(norm(a), -1, n - 1))
      stop  == IF st > 0 THEN (IF b = NONE THEN n ELSE clip(norm(b), 0, n))
               ELSE (IF b = NONE THEN -1 ELSE clip(norm(b), -1, n - 1))
      cnt   == IF st > 0 THEN (IF stop > start THEN (stop - start + st - 1) \div st ELSE 0)
               ELSE (IF start > stop THEN (start - stop + (-st) - 1) \div (-st) ELSE 0)
  IN [k \in 1..cnt |-> start + (k - 1) * st + 1]
IntIdx(n, arr) == [k \in 1..Len(arr) |-> (IF arr[k] < 0 THEN arr[k] + n ELSE arr[k]) + 1]
BoolIdx(m) == FilterIdx([i \in 1..Len(m) |-> m[i] = 1], 1, Len(m))
IntOk(n, i) == -n <= i /\ i < n

(* --------------------------------------------------------------- select *)
Ordered(o) == IF o.lo # NONE /\ o.hi # NONE /\ o.lo > o.hi
              THEN [lo |-> o.hi, hi |-> o.lo] ELSE [lo |-> o.lo, hi |-> o.hi]
InR(x, q) == (q.lo = NONE \/ x >= q.lo) /\ (q.hi = NONE \/ x <= q.hi)
Meets(lo, hi, q) == (q.lo = NONE \/ hi >= q.lo) /\ (q.hi = NONE \/ lo <= q.hi)
ClipLo(x, q) == IF q.lo # NONE /\ x < q.lo THEN q.lo ELSE x
ClipHi(x, q) == IF q.hi # NONE /\ x > q.hi THEN q.hi ELSE x
SelMain(r, q) ==
  LET ix == FilterIdx([i \in 1..Len(r.v) |-> InR(r.v[i], q)], 1, Len(r.v))
  IN [r EXCEPT !.lo = ClipLo(@, q), !.hi = ClipHi(@, q), !.v = Pick(@, ix), !.id = Pick(@, ix),
               !.x = IF @ = <<>> THEN @ ELSE Pick(@, ix)]
SelOther(r, q) ==
  LET ix == FilterIdx([i \in 1..Len(r.o) |-> InR(r.o[i], q)], 1, Len(r.o))
  IN [r EXCEPT !.olo = ClipLo(@, q), !.ohi = ClipHi(@, q), !.o = Pick(@, ix), !.oc = Pick(@, ix)]
Select1(s, o) ==
  CASE o.on = "m" -> LET q == Ordered(o)
                         k == FilterIdx([i \in 1..Len(s) |-> Meets(s[i].lo, s[i].hi, q)], 1, Len(s))
                     IN [j \in 1..Len(k) |-> SelMain(s[k[j]], q)]
    [] o.on = "o" -> LET q == Ordered(o)
                         k == FilterIdx([i \in 1..Len(s) |-> Meets(s[i].olo, s[i].ohi, q)], 1, Len(s))
                     IN [j \in 1..Len(k) |-> SelOther(s[k[j]], q)]
    [] o.on = "g" -> Pick(s, FilterIdx([i \in 1..Len(s) |-> Has(o.vals, s[i].g)], 1, Len(s)))
    [] o.on = "a" -> Pick(s, FilterIdx([i \in 1..Len(s) |-> Has(o.vals, s[i].a)], 1, Len(s)))
RECURSIVE SelectAll(_, _)
SelectAll(s, q) == IF q = <<>> THEN s ELSE SelectAll(Select1(s, Head(q)), Tail(q))

(* ----------------------------------------------------------------- sort *)
SortKey(r, o) == CASE o.key = "m" -> r.lo [] o.key = "o" -> r.olo
                   [] o.key = "g" -> o.rank[r.g] [] o.key = "a" -> o.rank[r.a]
Count(s, r) == Cardinality({i \in 1..Len(s) : s[i] = r})
IsPermutation(s, r) == Len(s) = Len(r) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(r, s[i])
IsSorted(s, o) == \A i \in 2..Len(s) : SortKey(s[i - 1], o) <= SortKey(s[i], o)

(* ---------------------------------------------------------------- chunk *)
(* Merge groups: same label and step, and no gap of more than tol/10 steps. *)
(* (sources without a single step are kept with those of their label)       *)
Stepless(s, i) == \E k \in 1..Len(s) : s[k].g = s[i].g /\ s[k].st = NULL
SameKind(s, i, j) == s[i].g = s[j].g /\ (s[i].st = s[j].st \/ Stepless(s, i))
Kin(s, i) == {j \in 1..Len(s) : SameKind(s, i, j)}
GapBefore(s, k, tol) ==
  LET before == {s[m].hi : m \in {m \in Kin(s, k) : s[m].lo < s[k].lo}}
  IN before # {} /\ 10 * s[k].lo > 10 * SetMax(before) + tol * Abs(s[k].st)
Together(s, i, j, tol) ==
  /\ SameKind(s, i, j)
  /\ Stepless(s, i) \/ LET a == IF s[i].lo <= s[j].lo THEN i ELSE j
         b == IF s[i].lo <= s[j].lo THEN j ELSE i
     IN ~\E k \in Kin(s, i) : s[k].lo > s[a].lo /\ s[k].lo <= s[b].lo /\ GapBefore(s, k, tol)
Groups(s, tol) == {{j \in 1..Len(s) : Together(s, i, j, tol)} : i \in 1..Len(s)}

GMin(s, G) == SetMin({s[i].lo : i \in G})
GMax(s, G) == SetMax({s[i].hi : i \in G})
GStep(s, G) == s[CHOOSE i \in G : TRUE].st
Values(s, G) == UNION {ToSet(s[i].v) : i \in G}
Cand(s, G, y) == UNION {{s[i].id[k] : k \in {m \in 1..Len(s[i].v) : s[i].v[m] = y}} : i \in G}
Owners(s, G, ids) == {i \in G : ToSet(s[i].id) \cap ids # {}}

Evenly(r) == /\ r.st # NULL /\ r.st # 0 /\ r.v # <<>>
             /\ \A k \in 2..Len(r.v) : r.v[k] - r.v[k - 1] = r.st
             /\ r.lo = SetMin(ToSet(r.v)) /\ r.hi = SetMax(ToSet(r.v))
(* the group lies on one grid and its contents tell its exact extent *)
OnGrid(s, G) ==
  /\ \A i \in G : Evenly(s[i])
  /\ \A i \in G : (s[i].lo - GMin(s, G)) % Abs(GStep(s, G)) = 0
  /\ GStep(s, G) > 0 \/ Cardinality(G) = 1
HasHole(s, G) == \E y \in Values(s, G) : y # SetMax(Values(s, G)) /\ y + Abs(GStep(s, G)) \notin Values(s, G)

ChunkStart(s, G, o, k) == GMin(s, G) + k * (o.len - o.ov)
ChunkMax(s, G, o) == (GMax(s, G) - GMin(s, G)) \div (o.len - o.ov)
ChunkVals(s, G, o, k) ==
  IF o.len = NONE THEN Values(s, G)
  ELSE {y \in Values(s, G) : ChunkStart(s, G, o, k) <= y /\ y < ChunkStart(s, G, o, k) + o.len}
LastGrid(s, G, o, k) ==
  LET m == Abs(GStep(s, G)) IN GMin(s, G) + m * ((ChunkStart(s, G, o, k) + o.len - GMin(s, G) - 1) \div m)
IsFull(s, G, o, k) == o.len = NONE \/ LastGrid(s, G, o, k) <= GMax(s, G)
(* a trailing partial segment of a single sample may be kept or not *)
IsRequired(s, G, o, k) ==
  IsFull(s, G, o, k) \/ (o.kp = 1 /\ ChunkStart(s, G, o, k) + Abs(GStep(s, G)) <= GMax(s, G))
IsAllowed(s, G, o, k) == IsFull(s, G, o, k) \/ o.kp = 1
ChunkKs(s, G, o) ==
  IF o.len = NONE THEN <<0>>
  ELSE LET n == ChunkMax(s, G, o)
           ok == [j \in 1..(n + 1) |-> IsAllowed(s, G, o, j - 1) /\ ChunkVals(s, G, o, j - 1) # {}]
           ix == FilterIdx(ok, 1, n + 1)
       IN [j \in 1..Len(ix) |-> ix[j] - 1]
NRequired(s, G, o) == Cardinality({k \in ToSet(ChunkKs(s, G, o)) : IsRequired(s, G, o, k)})

BadParams(o) ==
  \/ o.len # NONE /\ o.len <= 0
  \/ o.len # NONE /\ o.ov >= o.len
  \/ o.len = NONE /\ (o.ov # 0 \/ o.kp = 1)
AlwaysBad(o) == (o.len # NONE /\ o.len <= 0) \/ (o.len = NONE /\ (o.ov # 0 \/ o.kp = 1))
ConflictA(s, G) == \E i, j \in G : s[i].a # s[j].a
ConflictO(s, G) == \E i, j \in G : s[i].o # s[j].o
Incompatible(s, G, o) == (ConflictO(s, G) /\ \A i \in G : s[i].olo # NULL) \/ (o.conf = "raise" /\ ConflictA(s, G))
Judged(s, G) == OnGrid(s, G)
MustFail(s, o) ==
  IF s = <<>> THEN FALSE
  ELSE \/ AlwaysBad(o)
       \/ BadParams(o) /\ \E G \in Groups(s, o.tol) : OnGrid(s, G)
       \/ \E G \in Groups(s, o.tol) : OnGrid(s, G) /\ NRequired(s, G, o) > 0 /\ Incompatible(s, G, o)
MayFail(s, o) ==
  \/ MustFail(s, o)
  \/ BadParams(o)
  \/ \E G \in Groups(s, o.tol) :
       \/ ~OnGrid(s, G)
       \/ Incompatible(s, G, o)
       \/ o.conf = "raise" /\ \E i, j \in G : s[i].pa # s[j].pa
       \/ ConflictO(s, G)
       \/ Cardinality(G) > 1 /\ \E i \in G : Len(s[i].o) = 1  \* a single label has no (or any) step
       \/ o.conf = "raise" /\ Cardinality(G) > 1 /\ \E i \in G : s[i].x # <<>>
  \/ \A G \in Groups(s, o.tol) : OnGrid(s, G) => NRequired(s, G, o) = 0

Desc(S) == Rev(SortSet(S))
(* the labels of a segment, in the order they must be delivered *)
Labels(s, G, S) == IF GStep(s, G) < 0 THEN Desc(S) ELSE SortSet(S)
XOf(s, i, d) == s[i].x[IndexOf(s[i].id, d)]
(* is r the segment k of group G ? *)
SegmentBad(s, G, o, k, r) ==
  LET S   == ChunkVals(s, G, o, k)
      lab == Labels(s, G, S)
      own == Owners(s, G, ToSet(r.id))
      hole == HasHole(s, G)
      as  == {s[i].pa : i \in own}
      first == {s[i].pa : i \in {i \in own : \A j \in own : s[i].lo <= s[j].lo}}
  IN (IF Len(r.id) # Len(lab) \/ \E n \in 1..Len(lab) : r.id[n] \notin Cand(s, G, lab[n])
      THEN {"segment-samples"} ELSE {})
     \cup (IF (o.snap = 0 \/ ~hole) /\ r.v # lab THEN {"segment-labels"} ELSE {})
     \cup (IF own # {} /\ ~\E i \in own : r.oc = s[i].oc /\ r.o = s[i].o THEN {"segment-other-dim"} ELSE {})
     \cup (IF r.pg # s[CHOOSE i \in G : TRUE].g THEN {"segment-group"} ELSE {})
     \cup (IF Len(r.id) = Len(lab) /\ (\A i \in G : s[i].x # <<>>) /\ own # {}
              /\ (r.x = <<>> \/ \E n \in 1..Len(r.id) : r.x[n] \notin
                    {XOf(s, i, r.id[n]) : i \in {i \in own : Has(s[i].id, r.id[n])}})
              THEN {"segment-associated-coord"} ELSE {})
     \cup (IF Cardinality(as) = 1 /\ r.pa \notin as THEN {"segment-attr"} ELSE {})
     \cup (IF Cardinality(as) > 1 /\ o.conf = "keep_first" /\ r.pa \notin first
              /\ ~(MISSING \in first /\ r.pa \in as) THEN {"segment-attr-first"} ELSE {})
     \cup (IF Cardinality(as) > 1 /\ o.conf = "drop" /\ r.pa # MISSING THEN {"segment-attr-drop"} ELSE {})

GroupOf(s, o, r) ==
  {G \in Groups(s, o.tol) : \E i \in G : r.id # <<>> /\ Has(s[i].id, r.id[1])}
(* what holds of any delivered segment: it consists of samples of one group, *)
(* each at most once, in the order of their labels                           *)
WeakBad(s, G, o, r) ==
  LET all == UNION {ToSet(s[i].id) : i \in G}
      orig(d) == LET i == CHOOSE i \in G : Has(s[i].id, d) IN s[i].v[IndexOf(s[i].id, d)]
  IN (IF ~(ToSet(r.id) \subseteq all) THEN {"mixes-groups"}
      ELSE (IF Cardinality(ToSet(r.id)) # Len(r.id) THEN {"repeats-samples"} ELSE {})
           \cup (IF (\A i \in G : s[i].st # NULL /\ s[i].st > 0) /\ \E n \in 2..Len(r.id) : orig(r.id[n]) < orig(r.id[n - 1])
                 THEN {"out-of-order"} ELSE {})
           \cup (IF o.snap = 0 /\ Len(r.v) = Len(r.id) /\ \E n \in 1..Len(r.id) : r.v[n] # orig(r.id[n])
                 THEN {"relabelled"} ELSE {}))
(* merging sources which leave the grid but do not overlap keeps everything *)
Apart(s, G) == \A i, j \in G : i # j => s[i].hi < s[j].lo \/ s[j].hi < s[i].lo
RECURSIVE ConcatIds(_, _)
ConcatIds(s, G) ==
  IF G = {} THEN <<>>
  ELSE LET i == CHOOSE i \in G : \A j \in G : s[i].lo <= s[j].lo IN s[i].id \o ConcatIds(s, G \ {i})
RECURSIVE ConcatIds2(_, _, _, _)
ConcatIds2(s, G, a, b) ==
  IF G = {} THEN <<>>
  ELSE LET i == CHOOSE i \in G : \A j \in G : s[i].lo <= s[j].lo
           ix == FilterIdx([n \in 1..Len(s[i].v) |-> a <= s[i].v[n] /\ s[i].v[n] < b], 1, Len(s[i].v))
       IN Pick(s[i].id, ix) \o ConcatIds2(s, G \ {i}, a, b)
Plain(s, G) == \A i \in G : s[i].st # NULL /\ s[i].st > 0 /\ s[i].lo = SetMin(ToSet(s[i].v)) /\ s[i].hi = SetMax(ToSet(s[i].v))
(* segments of groups whose sources are evenly sampled, apart, but offset *)
PlainIds(s, G, o, k) == ConcatIds2(s, G, ChunkStart(s, G, o, k), ChunkStart(s, G, o, k) + o.len)
OffGridBad(s, G, o, m) ==
  IF o.len = NONE \/ o.len < GStep(s, G) \/ BadParams(o) \/ ~Plain(s, G) \/ ~Apart(s, G) \/ \E i \in G : ~Evenly(s[i]) THEN {}
  ELSE LET want == {PlainIds(s, G, o, k) : k \in 0..ChunkMax(s, G, o)} \ {<<>>}
           full == {PlainIds(s, G, o, k) : k \in {k \in 0..ChunkMax(s, G, o) :
                       ChunkStart(s, G, o, k) + o.len <= GMax(s, G)}} \ {<<>>}
       IN (IF \E n \in 1..Len(m) : m[n].id \notin want THEN {"offset-segment-samples"} ELSE {})
          \cup (IF \E ids \in full : ~\E n \in 1..Len(m) : m[n].id = ids THEN {"offset-segment-missing"} ELSE {})
MergeBad(s, G, o, r) ==
  IF o.len # NONE \/ ~Plain(s, G) \/ ~Apart(s, G) THEN {}
  ELSE (IF r.id # ConcatIds(s, G) THEN {"merge-samples"} ELSE {})
       \cup (IF r.v # <<>> /\ r.v[1] # GMin(s, G) THEN {"merge-start"} ELSE {})

ChunkBad(s, o, res) ==
  LET gs == Groups(s, o.tol)
      mine(G) == Pick(res, FilterIdx([n \in 1..Len(res) |-> G \in GroupOf(s, o, res[n])], 1, Len(res)))
  IN (IF \E n \in 1..Len(res) : Cardinality(GroupOf(s, o, res[n])) # 1
          /\ ~(res[n].id = <<>> /\ \E G \in gs : ~OnGrid(s, G)) THEN {"foreign-segment"} ELSE {})
     \cup UNION {LET m == mine(G) IN
         UNION {WeakBad(s, G, o, m[n]) : n \in 1..Len(m)}
         \cup (IF OnGrid(s, G)
               THEN LET ks == ChunkKs(s, G, o) IN
                    (IF Len(m) < NRequired(s, G, o) THEN {"segments-missing"} ELSE {})
                    \cup (IF Len(m) > Len(ks) THEN {"segments-extra"} ELSE {})
                    \cup UNION {SegmentBad(s, G, o, ks[n], m[n]) : n \in 1..SetMin({Len(ks), Len(m)})}
               ELSE IF o.len = NONE
               THEN (IF \E i \in G : s[i].st = NULL \/ s[i].st < 0 THEN {} ELSE IF Len(m) # 1 THEN {"merge-count"} ELSE MergeBad(s, G, o, m[1]))
               ELSE OffGridBad(s, G, o, m)) : G \in gs}

(* ------------------------------------------- contents against the patch *)
RowBad(r) ==
  (IF r.v = <<>> THEN {"empty-patch"}
   ELSE (IF Len(r.v) # Len(r.id) THEN {"row-shape"} ELSE {})
        \cup (IF r.lo > SetMin(ToSet(r.v)) \/ (r.st # NULL /\ r.pst # NULL /\ SetMin(ToSet(r.v)) - r.lo >= Abs(r.pst)) THEN {"contents-min"} ELSE {})
        \cup (IF r.hi < SetMax(ToSet(r.v)) \/ (r.st # NULL /\ r.pst # NULL /\ r.hi - SetMax(ToSet(r.v)) >= Abs(r.pst)) THEN {"contents-max"} ELSE {})
        \cup (IF r.st # NULL /\ r.pst # NULL /\ r.st # r.pst THEN {"contents-step"} ELSE {}))
  \cup (IF r.o # <<>> /\ r.olo # NULL /\ (r.olo > SetMin(ToSet(r.o)) \/ r.ohi < SetMax(ToSet(r.o))) THEN {"contents-other"} ELSE {})
  \cup (IF r.g # MISSING /\ r.g # r.pg THEN {"contents-group"} ELSE {})
  \cup (IF r.a # MISSING /\ r.a # r.pa THEN {"contents-attr"} ELSE {})
  \cup (IF r.sane = 0 THEN {"cells"} ELSE {})

(* ------------------------------------------------------------ operation *)
(* deterministic operations: the resulting sequence of records *)
Apply(s, o) ==
  CASE o.op = "slice"  -> Pick(s, SliceIdx3(Len(s), o.a, o.b, o.c))
    [] o.op = "intarr" -> Pick(s, IntIdx(Len(s), o.arr))
    [] o.op = "boolarr" -> Pick(s, BoolIdx(o.arr))
    [] o.op = "select" -> SelectAll(s, o.q)
    [] OTHER -> s
(* split: consecutive, non empty, complete *)
SplitBad(s, o, parts) ==
  (IF FlattenSeqs(parts) # s THEN {"split-not-a-partition"} ELSE {})
  \cup (IF \E i \in 1..Len(parts) : parts[i] = <<>> THEN {"split-empty-part"} ELSE {})
  \cup (IF o.size # NONE /\ \E i \in 1..Len(parts) : Len(parts[i]) > o.size \/ (i < Len(parts) /\ Len(parts[i]) # o.size)
        THEN {"split-size"} ELSE {})
  \cup (IF o.count # NONE /\ Len(parts) > o.count THEN {"split-count"} ELSE {})
  \cup (IF o.count # NONE /\ \E i, j \in 1..(Len(parts) - 1) : Len(parts[i]) # Len(parts[j]) THEN {"split-uneven"} ELSE {})
=============================================================================
