------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* Meaning of the element-wise, reducing, rolling and combining patch      *)
(* operations, stated through labels: what value must sit at which labels. *)
(* The patch state is that of Patch.tla; data are integers or NULL (NaN).  *)
(***************************************************************************)
EXTENDS Patch

Null(v) == Len(v) > 0 /\ \A i \in 1..Len(v) : v[i] = NULL   \* a dimension without labels
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* ------------------------------------------------------ element functions *)
F2(f, x, y) ==
  IF f \in {"gt", "ge", "lt", "le"}
  THEN IF x = NULL \/ y = NULL THEN 0
       ELSE CASE f = "gt" -> (IF x > y THEN 1 ELSE 0)
              [] f = "ge" -> (IF x >= y THEN 1 ELSE 0)
              [] f = "lt" -> (IF x < y THEN 1 ELSE 0)
              [] f = "le" -> (IF x <= y THEN 1 ELSE 0)
  ELSE IF x = NULL \/ y = NULL THEN NULL
       ELSE CASE f = "add" -> x + y
              [] f = "sub" -> x - y
              [] f = "mul" -> x * y
              [] f = "max" -> Max2(x, y)
              [] f = "sum" -> x + y
              [] f = "min" -> Min2(x, y)
              [] f = "fdiv" -> x \div y
              [] f = "mod" -> x % y
F1(f, x) ==
  CASE f = "isnan" -> (IF x = NULL THEN 1 ELSE 0)
    [] x = NULL    -> NULL
    [] f = "neg"   -> -x
    [] f = "abs"   -> Abs(x)
    [] f = "sq"    -> x * x

(* --------------------------------------------------- alignment of patches *)
(* ps is the sequence of operands; the result r has the dimensions of all.   *)
RECURSIVE UnionDims(_)
UnionDims(ps) ==
  IF Len(ps) = 1 THEN ps[1].dims
  ELSE LET rest == UnionDims(SubSeq(ps, 1, Len(ps) - 1)) q == ps[Len(ps)]
       IN rest \o SelectSeq(q.dims, LAMBDA d : ~Has(rest, d))
Unique(v) == \A i, j \in 1..Len(v) : v[i] = v[j] => i = j
Having(ps, d) == {i \in 1..Len(ps) : Has(ps[i].dims, d)}
Labelled(ps, d) == {i \in Having(ps, d) : ~Null(ps[i].coords[d].v)}
AllEqual(ps, S, d) == \A i, j \in S : ps[i].coords[d].v = ps[j].coords[d].v
Longest(ps, S, d) == LET i == CHOOSE k \in S : \A j \in S : Len(ps[k].coords[d].v) >= Len(ps[j].coords[d].v)
                     IN ps[i].coords[d].v
(* labels found in every labelled operand *)
Common(ps, d) == LET S == Labelled(ps, d) i == CHOOSE k \in S : TRUE
                 IN {x \in ToSet(ps[i].coords[d].v) : \A j \in S : x \in ToSet(ps[j].coords[d].v)}
(* Equal labels are kept as they are; otherwise the result has the common    *)
(* labels, in any order.  Dimensions without labels adapt to the others.     *)
LabelsBad(ps, d, v) ==
  LET S == Labelled(ps, d) IN
  IF S = {} THEN v # Longest(ps, Having(ps, d), d)
  ELSE IF AllEqual(ps, S, d) THEN v # ps[CHOOSE k \in S : TRUE].coords[d].v
  ELSE Len(v) # Cardinality(Common(ps, d)) \/ ToSet(v) # Common(ps, d)
(* position in labels v of what is labelled w[j] in the result *)
At(v, w, j) == IF Null(v) THEN (IF Len(v) = 1 THEN 1 ELSE j)
               ELSE IF v = w THEN j ELSE IndexOf(v, w[j])
Cell(s, r, mi, ds) ==
  [i \in 1..Len(ds) |-> At(s.coords[ds[i]].v, r.coords[ds[i]].v, mi[Axis(r, ds[i])] + 1) - 1]
CellAt(s, r, mi) == s.data[FlatIndex(Cell(s, r, mi, s.dims), Shape(s)) + 1]
CoordAt(s, r, mi, n) == s.coords[n].v[FlatIndex(Cell(s, r, mi, s.coords[n].d), CShape(s, n)) + 1]
AuxNames(p) == {n \in Names(p) : ~Has(p.dims, n) /\ p.coords[n].d # <<>>}

(* non-dimensional coordinates of a result must come from an operand and    *)
(* stay with their labels                                                   *)
AuxFrom(s, r, n) ==
  /\ n \in AuxNames(s)
  /\ s.coords[n].d = r.coords[n].d
  /\ \A k \in 1..Prod(Shape(r)) :
       LET mi == MultiIndex(k - 1, Shape(r))
           sub == [i \in 1..Len(r.coords[n].d) |-> mi[Axis(r, r.coords[n].d[i])]]
       IN r.coords[n].v[FlatIndex(sub, CShape(r, n)) + 1] = CoordAt(s, r, mi, n)
AlignBad(ps, r) ==
  IF r.dims # UnionDims(ps) THEN {"dims"}
  ELSE LET lb == {d \in ToSet(r.dims) : LabelsBad(ps, d, r.coords[d].v)}
       IN IF lb # {} THEN {"labels:" \o d : d \in lb}
          ELSE {"aux:" \o n : n \in {m \in AuxNames(r) : \A i \in 1..Len(ps) : ~AuxFrom(ps[i], r, m)}}
BinData(p, q, r, f) ==
  LET sh == Shape(r)
  IN [k \in 1..Prod(sh) |-> LET mi == MultiIndex(k - 1, sh) IN F2(f, CellAt(p, r, mi), CellAt(q, r, mi))]
BinBad(p, q, r, f) ==
  LET a == AlignBad(<<p, q>>, r)
  IN IF a # {} THEN a ELSE IF r.data # BinData(p, q, r, f) THEN {"data"} ELSE {}
(* p.where(q, other): other is a number x or a sequence of one patch        *)
WhereBad(p, q, other, x, r) ==
  LET ps == IF other = <<>> THEN <<p, q>> ELSE <<p, q, other[1]>>
      a == AlignBad(ps, r)
      sh == Shape(r)
  IN IF a # {} THEN a
     ELSE IF r.data # [k \in 1..Prod(sh) |->
               LET mi == MultiIndex(k - 1, sh)
               IN IF CellAt(q, r, mi) # 0 THEN CellAt(p, r, mi)
                  ELSE IF other = <<>> THEN x ELSE CellAt(other[1], r, mi)] THEN {"data"} ELSE {}
(* no result: one of the documented reasons must hold *)
PairMayFail(p, q) ==
  \/ {d \in ToSet(p.dims) : Has(q.dims, d)} = {}
  \/ \E d \in {e \in ToSet(p.dims) : Has(q.dims, e)} :
       LET a == p.coords[d].v b == q.coords[d].v IN
       \/ (Null(a) \/ Null(b)) /\ a # b /\ ~(Null(a) /\ Len(a) = 1) /\ ~(Null(b) /\ Len(b) = 1)
          /\ Len(a) # Len(b)
       \/ a # b /\ (~Unique(a) \/ ~Unique(b)) /\ ~Null(a) /\ ~Null(b)
       \/ a = <<>> \/ b = <<>>
  \/ \E n \in AuxNames(p) \cap AuxNames(q) : p.coords[n] # q.coords[n]
  \/ \E n \in Names(p) \cap Names(q) : Has(p.dims, n) # Has(q.dims, n)
MayFail(ps) ==
  \/ \E i, j \in 1..Len(ps) : i < j /\ PairMayFail(ps[i], ps[j])
  \/ Len(ps) > 2 /\ \E i \in 1..Len(ps) : \E d \in ToSet(ps[i].dims) :
                        Null(ps[i].coords[d].v) /\ DimLen(ps[i], d) > 1
  \/ Len(ps) > 2 /\ \E d \in ToSet(UnionDims(ps)) : Labelled(ps, d) # {} /\ Common(ps, d) = {}

(* -------------------------------------------------- arrays and broadcasting *)
(* array b = [shape, v] against the patch; numpy rules, trailing dimensions  *)
PadShape(sh, n) == [i \in 1..n |-> IF i <= n - Len(sh) THEN 1 ELSE sh[i - (n - Len(sh))]]
CastOk(p, b) ==
  /\ Len(b.shape) <= Len(p.dims)
  /\ LET sh == PadShape(b.shape, Len(p.dims))
     IN \A i \in 1..Len(p.dims) :
          LET n == DimLen(p, p.dims[i])
          IN n = sh[i] \/ sh[i] = 1 \/ (n = 1 /\ Null(p.coords[p.dims[i]].v))
CastShape(p, b) ==
  LET sh == PadShape(b.shape, Len(p.dims))
  IN [i \in 1..Len(p.dims) |-> IF sh[i] = 1 THEN DimLen(p, p.dims[i]) ELSE sh[i]]
CastCell(v, sh, mi) == v[FlatIndex([i \in 1..Len(sh) |-> IF sh[i] = 1 THEN 0 ELSE mi[i]], sh) + 1]
ArrData(p, b, f, rev) ==
  LET sh == CastShape(p, b)
      ash == PadShape(b.shape, Len(p.dims))
  IN [k \in 1..Prod(sh) |->
        LET mi == MultiIndex(k - 1, sh)
            x == CastCell(p.data, Shape(p), mi)
            y == CastCell(b.v, ash, mi)
        IN IF rev THEN F2(f, y, x) ELSE F2(f, x, y)]
ArrBad(p, b, r, f, rev) ==
  IF r.dims # p.dims THEN {"dims"}
  ELSE IF Shape(r) # CastShape(p, b) THEN {"shape"}
  ELSE (IF \E d \in ToSet(p.dims) :
             IF DimLen(p, d) = DimLen(r, d) THEN r.coords[d] # p.coords[d] ELSE ~Null(r.coords[d].v)
        THEN {"labels"} ELSE {})
    \cup {"aux:" \o n : n \in {m \in AuxNames(r) : m \notin Names(p) \/ r.coords[m] # p.coords[m]}}
    \cup (IF r.data # ArrData(p, b, f, rev) THEN {"data"} ELSE {})

(* ------------------------------------------------------------- reductions *)
RECURSIVE FoldF(_, _, _)
FoldF(f, acc, s) == IF s = <<>> THEN acc ELSE FoldF(f, F2(f, acc, Head(s)), Tail(s))
SortSeq2(s) == LET a == ArgSort(s, 1..Len(s), <<>>) IN [i \in 1..Len(s) |-> s[a[i]]]
(* one lane; skip = ignore missing values                                   *)
Red1(f, lane, skip) ==
  LET s == IF skip THEN SelectSeq(lane, LAMBDA x : x # NULL) ELSE lane
      hasnull == Has(s, NULL)
  IN CASE f = "first" -> lane[1]
       [] f = "last"  -> lane[Len(lane)]
       [] f = "sum"   -> IF hasnull THEN NULL ELSE SumSeq(s)
       [] f = "prod"  -> IF hasnull THEN NULL ELSE FoldF("mul", 1, s)
       [] s = <<>>    -> NULL
       [] hasnull     -> NULL
       [] f = "min"   -> MinOf(s)
       [] f = "max"   -> MaxOf(s)
       [] f = "mean"  -> SumSeq(s) \div Len(s)
       [] f = "median" -> LET t == SortSeq2(s) n == Len(s)
                          IN IF n % 2 = 1 THEN t[(n + 1) \div 2]
                             ELSE (t[n \div 2] + t[n \div 2 + 1]) \div 2
Lane(arr, shape, ax, o, r) ==
  LET inner == ProdFrom(shape, ax + 1, Len(shape)) n == shape[ax]
  IN [j \in 1..n |-> arr[(o * n + j - 1) * inner + r + 1]]
RedAxis(arr, shape, ax, f, skip) ==
  LET inner == ProdFrom(shape, ax + 1, Len(shape))
      outer == ProdFrom(shape, 1, ax - 1)
  IN [k \in 1..(outer * inner) |->
        Red1(f, Lane(arr, shape, ax, (k - 1) \div inner, (k - 1) % inner), skip)]
(* reduce dimension d of p, keeping it with the single label x (NULL: none) *)
RedDim(p, d, f, skip, x) ==
  [dims |-> p.dims,
   coords |-> [n \in (Names(p) \ (OnDim(p, d) \ {d})) |->
                 IF n = d THEN [d |-> <<d>>, v |-> <<x>>] ELSE p.coords[n]],
   data |-> RedAxis(p.data, Shape(p), Axis(p, d), f, skip)]
(* the label left by dim_reduce: "empty", "squeeze" or an aggregation       *)
RedLabel(v, how) ==
  CASE how = "empty" -> IF Len(v) = 1 THEN v[1] ELSE NULL
    [] how = "squeeze" -> NULL
    [] OTHER -> Red1(how, v, TRUE)
RECURSIVE Agg(_, _, _, _, _)
Agg(p, ds, f, how, skip) ==
  IF ds = <<>> THEN p
  ELSE LET d == Head(ds)
           one == RedDim(p, d, f, skip, RedLabel(p.coords[d].v, how))
           nxt == IF how = "squeeze" THEN SqueezeDims(one, {d}) ELSE one
       IN Agg(nxt, Tail(ds), f, how, skip)
(* reduction over several axes at once (numpy, missing values not skipped)  *)
AccLane(f, lane) == [j \in 1..Len(lane) |->
                       IF j = 1 THEN lane[1] ELSE FoldF(f, lane[1], SubSeq(lane, 2, j))]
Accum(p, d, f) ==
  LET sh == Shape(p) ax == Axis(p, d)
      inner == ProdFrom(sh, ax + 1, Len(sh)) n == sh[ax]
  IN [p EXCEPT !.data = [k \in 1..Len(p.data) |->
        LET i == (k - 1) \div inner
        IN AccLane(f, Lane(p.data, sh, ax, i \div n, (k - 1) % inner))[(i % n) + 1]]]

(* ---------------------------------------------------------------- rolling *)
(* the value at label i (1-based): the window of w samples ending there, or *)
(* centred on it (for even w the earlier half is the longer one)            *)
RollAt(f, lane, w, center, i) ==
  LET hi == IF center THEN i + (w - 1) \div 2 ELSE i
      lo == hi - w + 1
  IN IF lo < 1 \/ hi > Len(lane) THEN NULL ELSE Red1(f, SubSeq(lane, lo, hi), FALSE)
Rolling(p, d, f, w, step, center) ==
  LET sh == Shape(p) ax == Axis(p, d)
      inner == ProdFrom(sh, ax + 1, Len(sh)) n == sh[ax]
      full == [p EXCEPT !.data = [k \in 1..Len(p.data) |->
                 LET i == (k - 1) \div inner
                 IN RollAt(f, Lane(p.data, sh, ax, i \div n, (k - 1) % inner), w, center, (i % n) + 1)]]
  IN TakeDim(full, d, StrideIdx(n, step))

(* ------------------------------------------------- combining several patches *)
RECURSIVE CatLabels(_, _)
CatLabels(ps, d) == IF ps = <<>> THEN <<>> ELSE Head(ps).coords[d].v \o CatLabels(Tail(ps), d)
(* same dimensions and every shared coordinate, except possibly d, equal     *)
Compat(p, q, d, sameLen) ==
  p.dims = q.dims /\ \A n \in Names(p) \cap Names(q) :
     \/ p.coords[n] = q.coords[n]
     \/ n = d /\ (~sameLen \/ Len(p.coords[n].v) = Len(q.coords[n].v))
(* start of the k-th patch along the concatenated dimension                  *)
RECURSIVE CatOffset(_, _, _)
CatOffset(ps, d, k) == IF k = 1 THEN 0 ELSE CatOffset(ps, d, k - 1) + Len(ps[k - 1].coords[d].v)
CatData(ps, d, new) ==
  LET p == ps[1]
      total == IF new THEN Len(ps) ELSE Len(CatLabels(ps, d))
      dims == IF new THEN Append(p.dims, d) ELSE p.dims
      sh == [i \in 1..Len(dims) |-> IF dims[i] = d THEN total ELSE DimLen(p, dims[i])]
      ax == IndexOf(dims, d)
      owner == [j \in 1..total |->
                  IF new THEN <<j, 0>>
                  ELSE LET k == CHOOSE m \in 1..Len(ps) :
                                  /\ CatOffset(ps, d, m) < j
                                  /\ j <= CatOffset(ps, d, m) + Len(ps[m].coords[d].v)
                       IN <<k, j - CatOffset(ps, d, k) - 1>>]
  IN [i \in 1..Prod(sh) |->
        LET mi == MultiIndex(i - 1, sh)
            w == owner[mi[ax] + 1]
            s == ps[w[1]]
            sub == [a \in 1..Len(s.dims) |-> IF s.dims[a] = d THEN w[2] ELSE mi[a]]
        IN s.data[FlatIndex(sub, Shape(s)) + 1]]
(* groups of at most n compatible patches, n = 0: all *)
RECURSIVE Groups(_, _)
Groups(ps, n) ==
  IF ps = <<>> THEN <<>>
  ELSE IF n = 0 \/ n >= Len(ps) THEN <<ps>>
  ELSE <<SubSeq(ps, 1, n)>> \o Groups(SubSeq(ps, n + 1, Len(ps)), n)
Kept(ps, d, sameLen) == SelectSeq(ps, LAMBDA q : Compat(ps[1], q, d, sameLen))
(* verdict for one concatenated patch *)
CatBad(ps, d, r) ==
  LET new == ~Has(ps[1].dims, d)
      dims == IF new THEN Append(ps[1].dims, d) ELSE ps[1].dims
      dl == IF d \in DOMAIN r.coords THEN r.coords[d].v ELSE <<>>
      (* non-dimensional coordinates stay with their samples: along d they  *)
      (* are the concatenation, elsewhere those of the first patch          *)
      auxok(n) ==
        /\ n \in AuxNames(ps[1])
        /\ r.coords[n].d = ps[1].coords[n].d
        /\ IF ~Has(r.coords[n].d, d) THEN r.coords[n] = ps[1].coords[n]
           ELSE IF Len(ps) = 1 THEN r.coords[n] = ps[1].coords[n]
           ELSE /\ \A k \in 1..Len(ps) : n \in Names(ps[k]) /\ Len(ps[k].coords[n].d) = 1
                /\ r.coords[n].v = CatLabels([k \in 1..Len(ps) |->
                      [coords |-> [m \in {d} |-> ps[k].coords[n]]]], d)
  IN IF r.dims # dims THEN {"dims"}
     ELSE (IF new THEN (IF Len(dl) # Len(ps) THEN {"labels:" \o d} ELSE {})
           ELSE IF dl # CatLabels(ps, d) THEN {"labels:" \o d} ELSE {})
       \cup {"labels:" \o n : n \in {m \in ToSet(dims) \ {d} : r.coords[m] # ps[1].coords[m]}}
       \cup {"aux:" \o n : n \in {m \in AuxNames(r) : ~auxok(m)}}
       \cup (IF r.data # CatData(ps, d, new) THEN {"data"} ELSE {})
ConcatBad(ps, d, n, outs) ==
  LET gs == Groups(Kept(ps, d, FALSE), n)
  IN IF Len(outs) # Len(gs) THEN {"count"}
     ELSE UNION {CatBad(gs[i], d, outs[i]) : i \in 1..Len(gs)}
RECURSIVE SumData(_, _)
SumData(ps, acc) ==
  IF ps = <<>> THEN acc
  ELSE SumData(Tail(ps), [k \in 1..Len(acc) |-> F2("add", acc[k], Head(ps).data[k])])
(* stack: element-wise sum of the compatible patches; labels of dim_vary     *)
(* start at zero                                                            *)
StackBad(ps, d, r) ==
  LET ks == Kept(ps, d, TRUE)
      p == ps[1]
      lab == IF d = "" THEN <<>>
             ELSE LET v == p.coords[d].v IN IF Null(v) THEN v ELSE [i \in 1..Len(v) |-> v[i] - VMin(v)]
  IN IF r.dims # p.dims THEN {"dims"}
     ELSE (IF r.data # SumData(Tail(ks), ks[1].data) THEN {"data"} ELSE {})
       \cup {"labels:" \o n : n \in {m \in ToSet(p.dims) :
               IF m = d THEN r.coords[m].v # lab ELSE r.coords[m] # p.coords[m]}}
       \cup {"aux:" \o n : n \in {m \in AuxNames(r) : m \notin Names(p) \/ r.coords[m] # p.coords[m]}}
=============================================================================
