------------------------------- MODULE Patch -------------------------------
(***************************************************************************)
(* Abstract state of a dascore Patch and the meaning of its structural     *)
(* operations.                                                             *)
(*                                                                         *)
(*   patch == [dims   : Seq(STRING),                                       *)
(*             coords : [name -> [d : Seq(STRING), v : Seq(Int)]],         *)
(*             data   : Seq(Int)]                                          *)
(*                                                                         *)
(* coords[n].d are the dimensions coordinate n is attached to, coords[n].v *)
(* its values flattened row-major (milli-units, see DESIGN.md); the data   *)
(* are flattened row-major over dims.  Dimension d has length              *)
(* Len(coords[d].v).  Samples carry unique ids, so equality of data says   *)
(* which physical sample sits in which cell.                               *)
(***************************************************************************)
EXTENDS NDArray

NULL == 2000000001     \* NaN / NaT / missing value
OFF  == -2000000001    \* a value which is not on the scenario grid
NONE == 2000000002     \* an open end of a range

DimLen(p, d)  == Len(p.coords[d].v)
Shape(p)      == [i \in 1..Len(p.dims) |-> DimLen(p, p.dims[i])]
CShape(p, n)  == [i \in 1..Len(p.coords[n].d) |-> DimLen(p, p.coords[n].d[i])]
Names(p)      == DOMAIN p.coords
Axis(p, d)    == IndexOf(p.dims, d)
OnDim(p, d)   == {n \in Names(p) : Has(p.coords[n].d, d)}

(* The core structural invariant (property C01). *)
WellFormed(p) ==
  /\ \A i \in 1..Len(p.dims) : /\ p.dims[i] \in Names(p)
                               /\ p.coords[p.dims[i]].d = <<p.dims[i]>>
  /\ \A i, j \in 1..Len(p.dims) : p.dims[i] = p.dims[j] => i = j
  /\ \A n \in Names(p) : LET c == p.coords[n] IN
       /\ ToSet(c.d) \subseteq ToSet(p.dims)
       /\ c.d # <<>> => Len(c.v) = Prod(CShape(p, n))
  /\ Len(p.data) = Prod(Shape(p))

(* take index sequence idx (1-based) along dimension d: data and every      *)
(* coordinate attached to d move together.                                  *)
TakeDim(p, d, idx) ==
  [dims   |-> p.dims,
   coords |-> [n \in Names(p) |->
                 IF Has(p.coords[n].d, d)
                 THEN [d |-> p.coords[n].d,
                       v |-> TakeAxis(p.coords[n].v, CShape(p, n),
                                      IndexOf(p.coords[n].d, d), idx)]
                 ELSE p.coords[n]],
   data   |-> TakeAxis(p.data, Shape(p), Axis(p, d), idx)]

(* ---------------------------------------------------------------- select *)
(* index sequence chosen by a query on a sequence of coordinate values      *)
(* A null coordinate value lies in no range, except a range open at both ends. *)
InRange(x, lo, hi) ==
  \/ lo = NONE /\ hi = NONE
  \/ x # NULL /\ (lo = NONE \/ x >= lo) /\ (hi = NONE \/ x <= hi)
NonNull(v) == {v[i] : i \in 1..Len(v)} \ {NULL}
VMin(v) == CHOOSE x \in NonNull(v) : \A y \in NonNull(v) : x <= y
VMax(v) == CHOOSE x \in NonNull(v) : \A y \in NonNull(v) : x >= y
RangeIdx(v, lo0, hi0) ==
  LET sw == lo0 # NONE /\ hi0 # NONE /\ lo0 > hi0
      lo == IF sw THEN hi0 ELSE lo0
      hi == IF sw THEN lo0 ELSE hi0
  IN FilterIdx([i \in 1..Len(v) |-> InRange(v[i], lo, hi)], 1, Len(v))
RelValue(v, x) ==
  IF x = NONE THEN NONE ELSE IF x >= 0 THEN VMin(v) + x ELSE VMax(v) + x
(* python slice semantics: 0-based, half open, negative counts from the end *)
PyClip(x, n) == LET y == IF x < 0 THEN x + n ELSE x
                IN IF y < 0 THEN 0 ELSE IF y > n THEN n ELSE y
SliceIdx(n, lo, hi) ==
  LET a == IF lo = NONE THEN 0 ELSE PyClip(lo, n)
      b == IF hi = NONE THEN n ELSE PyClip(hi, n)
  IN IF a >= b THEN <<>> ELSE [i \in 1..(b - a) |-> a + i]
InSeq(s, x) == \E j \in 1..Len(s) : s[j] = x

SelIdx(v, q) ==
  CASE q.mode = "range" -> RangeIdx(v, q.lo, q.hi)
    [] q.mode = "rel"   -> IF v = <<>> \/ NonNull(v) = {} THEN <<>>
                           ELSE RangeIdx(v, RelValue(v, q.lo), RelValue(v, q.hi))
    [] q.mode = "samp"  -> SliceIdx(Len(v), q.lo, q.hi)
    [] q.mode = "vals"  -> FilterIdx([i \in 1..Len(v) |-> InSeq(q.a, v[i])], 1, Len(v))
    [] q.mode = "relvals" ->
         IF v = <<>> THEN <<>>
         ELSE LET w == [j \in 1..Len(q.a) |-> RelValue(v, q.a[j])]
              IN FilterIdx([i \in 1..Len(v) |-> InSeq(w, v[i])], 1, Len(v))
    [] q.mode = "mask"  -> FilterIdx([i \in 1..Len(v) |-> q.a[i] = 1], 1, Len(v))
    [] q.mode = "sidx"  -> FilterIdx([i \in 1..Len(v) |-> InSeq(q.a, i - 1)], 1, Len(v))

SelectOne(p, name, q) ==
  LET c == p.coords[name] IN
  IF c.d = <<>>
  THEN [p EXCEPT !.coords[name].v =
          LET ix == SelIdx(c.v, q) IN [i \in 1..Len(ix) |-> c.v[ix[i]]]]
  ELSE TakeDim(p, c.d[1], SelIdx(c.v, q))

(* q is a sequence of queries [c, mode, ...]; successive filtering *)
RECURSIVE SelectAll(_, _)
SelectAll(p, qs) == IF qs = <<>> THEN p
                    ELSE SelectAll(SelectOne(p, Head(qs).c, Head(qs)), Tail(qs))

(* ----------------------------------------------------------------- order *)
RECURSIVE OrderIdx(_, _)
OrderIdx(v, a) ==
  IF a = <<>> THEN <<>>
  ELSE FilterIdx([i \in 1..Len(v) |-> v[i] = Head(a)], 1, Len(v)) \o OrderIdx(v, Tail(a))
RECURSIVE OrderSamp(_, _)
OrderSamp(n, a) ==
  IF a = <<>> THEN <<>>
  ELSE LET x == Head(a)
           y == IF x < 0 THEN x + n ELSE x
       IN (IF y >= 0 /\ y < n THEN <<y + 1>> ELSE <<>>) \o OrderSamp(n, Tail(a))
Order(p, name, q) ==
  LET c == p.coords[name]
      ix == IF q.mode = "sidx" THEN OrderSamp(Len(c.v), q.a) ELSE OrderIdx(c.v, q.a)
  IN TakeDim(p, c.d[1], ix)

(* -------------------------------------------------------- sort/flip/etc. *)
RECURSIVE ArgSort(_, _, _)
(* stable argsort (ascending) of v restricted to index set s *)
ArgSort(v, s, acc) ==
  IF s = {} THEN acc
  ELSE LET m == CHOOSE i \in s : \A j \in s : v[i] < v[j] \/ (v[i] = v[j] /\ i <= j)
       IN ArgSort(v, s \ {m}, Append(acc, m))
IsAsc(v)  == \A i \in 1..(Len(v) - 1) : v[i] <= v[i + 1]
IsDesc(v) == \A i \in 1..(Len(v) - 1) : v[i] >= v[i + 1]
SortIdx(v, reverse) ==
  IF ~reverse /\ IsAsc(v) THEN [i \in 1..Len(v) |-> i]
  ELSE IF reverse /\ IsDesc(v) THEN [i \in 1..Len(v) |-> i]
  ELSE LET a == ArgSort(v, 1..Len(v), <<>>) IN IF reverse THEN Rev(a) ELSE a
SortOne(p, name, reverse) ==
  TakeDim(p, p.coords[name].d[1], SortIdx(p.coords[name].v, reverse))
RECURSIVE SortAll(_, _, _)
SortAll(p, names, reverse) ==
  IF names = <<>> THEN p ELSE SortAll(SortOne(p, Head(names), reverse), Tail(names), reverse)

(* evenly spaced replacement: value i of n between first and last, rounded  *)
SnapVals(v) ==
  LET n == Len(v) IN
  IF n <= 1 THEN v
  ELSE [i \in 1..n |-> v[1] + ((i - 1) * (v[n] - v[1])) \div (n - 1)]

FlipOne(p, d, fc) ==
  LET r == TakeDim(p, d, Rev([i \in 1..DimLen(p, d) |-> i]))
  IN IF fc THEN r ELSE [r EXCEPT !.coords = p.coords]
RECURSIVE FlipAll(_, _, _)
FlipAll(p, ds, fc) == IF ds = <<>> THEN p ELSE FlipAll(FlipOne(p, Head(ds), fc), Tail(ds), fc)

Transpose(p, dims) ==
  [p EXCEPT !.dims = dims,
            !.data = TransposeArr(p.data, Shape(p),
                                  [i \in 1..Len(dims) |-> Axis(p, dims[i])])]

DropNames(p, s) == [p EXCEPT !.coords = [n \in (Names(p) \ s) |-> p.coords[n]]]

(* removing length-one dimensions removes every coordinate attached to them *)
SqueezeDims(p, s) ==
  LET q == DropNames(p, UNION {OnDim(p, d) : d \in s})
  IN [q EXCEPT !.dims = SelectSeq(p.dims, LAMBDA d : d \notin s)]
Squeeze(p, ds) ==
  SqueezeDims(p, IF ds = <<>> THEN {p.dims[i] : i \in {j \in 1..Len(p.dims) : DimLen(p, p.dims[j]) <= 1}}
                 ELSE ToSet(ds))

(* new trailing dimension d with values v; data repeated along it *)
AppendDim(p, d, v) ==
  IF Has(p.dims, d) THEN p
  ELSE [dims |-> Append(p.dims, d),
        coords |-> [n \in (Names(p) \cup {d}) |->
                      IF n = d THEN [d |-> <<d>>, v |-> v] ELSE p.coords[n]],
        data |-> RepeatLast(p.data, Len(v))]

(* m is a function old-name -> new-name *)
RenSeq(s, m) == [i \in 1..Len(s) |-> IF s[i] \in DOMAIN m THEN m[s[i]] ELSE s[i]]
Rename(p, m) ==
  LET newname(n) == IF n \in DOMAIN m THEN m[n] ELSE n
      olds == Names(p)
  IN [dims |-> RenSeq(p.dims, m),
      coords |-> [x \in {newname(n) : n \in olds} |->
                    LET o == CHOOSE n \in olds : newname(n) = x
                    IN [d |-> RenSeq(p.coords[o].d, m), v |-> p.coords[o].v]],
      data |-> p.data]

(* a coordinate attached to dimension `old` becomes the dimension *)
SetDim(p, old, new) ==
  [dims |-> [i \in 1..Len(p.dims) |-> IF p.dims[i] = old THEN new ELSE p.dims[i]],
   coords |-> [n \in Names(p) |->
                 [d |-> [i \in 1..Len(p.coords[n].d) |->
                           IF p.coords[n].d[i] = old THEN new ELSE p.coords[n].d[i]],
                  v |-> p.coords[n].v]],
   data |-> p.data]

(* add or replace a coordinate *)
PutCoord(p, name, d, v) ==
  [p EXCEPT !.coords = [n \in (Names(p) \cup {name}) |->
                          IF n = name THEN [d |-> d, v |-> v] ELSE p.coords[n]]]

(* move (min, max) or stretch (step) the labels of a coordinate *)
SetLim(p, d, w, x) ==
  LET v == p.coords[d].v
      lo == VMin(v)
      hi == VMax(v)
  IN [p EXCEPT !.coords[d].v =
        [i \in 1..Len(v) |-> CASE w = "min" -> v[i] + x - lo
                               [] w = "max" -> v[i] + x - hi
                               [] w = "step" -> v[1] + (i - 1) * x]]

StrideIdx(n, k) == [i \in 1..((n + k - 1) \div k) |-> (i - 1) * k + 1]
Decimate(p, d, k) == TakeDim(p, d, StrideIdx(DimLen(p, d), k))

RollIdx(n, s) == [i \in 1..n |-> ((i - 1 - s) % n) + 1]
Roll(p, d, s, uc) ==
  LET r == TakeDim(p, d, RollIdx(DimLen(p, d), s))
  IN IF uc THEN [r EXCEPT !.coords = [n \in Names(p) |-> IF n = d THEN r.coords[d] ELSE p.coords[n]]]
     ELSE [r EXCEPT !.coords = p.coords]

(* pad with `fill` before/after along d; evenly sampled labels extrapolate  *)
PadArr(arr, shape, ax, b, a, fill) ==
  LET inner == ProdFrom(shape, ax + 1, Len(shape))
      outer == ProdFrom(shape, 1, ax - 1)
      n == shape[ax]
      m == n + a + b
  IN [k \in 1..(outer * m * inner) |->
        LET i == (k - 1) \div inner
            r == (k - 1) % inner
            j == i % m
            o == i \div m
        IN IF j < b \/ j >= b + n THEN fill
           ELSE arr[(o * n + j - b) * inner + r + 1]]
EvenStep(v) == IF Len(v) < 2 THEN 0 ELSE v[2] - v[1]
IsEven(v) == Len(v) >= 2 /\ EvenStep(v) # 0 /\ \A i \in 2..Len(v) : v[i] - v[i - 1] = EvenStep(v)
PadVals(v, b, a, expand) ==
  [i \in 1..(Len(v) + a + b) |->
     IF i > b /\ i <= b + Len(v) THEN v[i - b]
     ELSE IF expand /\ IsEven(v) THEN v[1] + (i - 1 - b) * EvenStep(v) ELSE NULL]
PadDim(p, d, b, a, fill, expand) ==
  [dims |-> p.dims,
   coords |-> [n \in (IF a + b = 0 THEN Names(p) ELSE Names(p) \ (OnDim(p, d) \ {d})) |->
                 IF n = d THEN [d |-> <<d>>, v |-> PadVals(p.coords[d].v, b, a, expand)]
                 ELSE p.coords[n]],
   data |-> PadArr(p.data, Shape(p), Axis(p, d), b, a, fill)]

(* drop every label along d at which any/all samples are null *)
LaneNull(p, d, i, how) ==
  LET one == TakeAxis(p.data, Shape(p), Axis(p, d), <<i>>)
  IN IF how = "any" THEN \E k \in 1..Len(one) : one[k] = NULL
     ELSE \A k \in 1..Len(one) : one[k] = NULL
DropNa(p, d, how) ==
  TakeDim(p, d, FilterIdx([i \in 1..DimLen(p, d) |-> ~LaneNull(p, d, i, how)], 1, DimLen(p, d)))

(* --------------------------------------------------------------- Apply   *)
(* Meaning of one operation record.                                         *)
Apply(p, o) ==
  CASE o.op = "select"     -> SelectAll(p, o.q)
    [] o.op = "order"      -> Order(p, o.q[1].c, o.q[1])
    [] o.op = "transpose"  -> Transpose(p, o.dims)
    [] o.op = "sort"       -> SortAll(p, o.names, o.rev = 1)
    [] o.op = "snap"       -> LET s == SortAll(p, o.names, o.rev = 1) IN
                              [s EXCEPT !.coords = [n \in Names(s) |->
                                 IF Has(o.names, n) THEN [d |-> s.coords[n].d, v |-> SnapVals(s.coords[n].v)]
                                 ELSE s.coords[n]]]
    [] o.op = "flip"       -> FlipAll(p, o.dims, o.fc = 1)
    [] o.op = "squeeze"    -> Squeeze(p, o.dims)
    [] o.op = "append"     -> AppendDim(p, o.d, o.v)
    [] o.op = "rename"     -> Rename(p, o.m)
    [] o.op = "setdim"     -> SetDim(p, o.old, o.new)
    [] o.op = "dropcoords" -> DropNames(p, ToSet(o.names))
    [] o.op = "putcoord"   -> PutCoord(p, o.name, o.d, o.v)
    [] o.op = "setlim"     -> SetLim(p, o.d, o.w, o.x)
    [] o.op = "setattr"    -> p
    [] o.op = "decimate"   -> Decimate(p, o.d, o.k)
    [] o.op = "roll"       -> Roll(p, o.d, o.s, o.uc = 1)
    [] o.op = "pad"        -> PadDim(p, o.d, o.b, o.a, o.fill, o.ex = 1)
    [] o.op = "dropna"     -> DropNa(p, o.d, o.how)
    [] o.op = "fillna"     -> [p EXCEPT !.data = [k \in 1..Len(p.data) |->
                                  IF p.data[k] = NULL THEN o.fill ELSE p.data[k]]]
    [] o.op = "noop"       -> p

(* Operations whose documentation lets dependent non-dimensional            *)
(* coordinates be dropped when a dimension changes length (they may also be *)
(* kept, but then must be carried along correctly).                         *)
MayDrop(p, o) ==
  CASE o.op \in {"decimate", "dropna", "pad"} -> OnDim(p, o.d) \ {o.d}
    [] OTHER -> {}
(* coordinates whose values the operation leaves unspecified *)
Unspec(p, o) ==
  CASE o.op = "roll" /\ o.uc = 1 -> OnDim(p, o.d) \ {o.d}
    [] OTHER -> {}

(* ------------------------------------------------ label integrity (C04)  *)
(* the labels of the sample at flat position k: coordinate name -> value    *)
LabelOf(p, k, n) ==
  LET mi == MultiIndex(k - 1, Shape(p))
      c  == p.coords[n]
      sub == [i \in 1..Len(c.d) |-> mi[Axis(p, c.d[i])]]
  IN c.v[FlatIndex(sub, CShape(p, n)) + 1]
Labels(p) ==
  {<<p.data[k], n, LabelOf(p, k, n)>> :
     k \in 1..Len(p.data), n \in {m \in Names(p) : p.coords[m].d # <<>>}}
=============================================================================
