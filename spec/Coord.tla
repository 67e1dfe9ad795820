-------------------------------- MODULE Coord --------------------------------
(* Coordinates.  A coordinate stands for a finite sequence of labels         *)
(* (integers: ticks of whatever the labels count).  However it is stored -   *)
(* a range, a monotonic array, any array - every operation must act as the   *)
(* same operation on that sequence, and the indexer it returns must pick     *)
(* exactly the labels of the coordinate it returns.                          *)
EXTENDS NDArray
NULL == 2000000001

(* ------------------------------------------------------------- primitives *)
Picks(v, ix) == [k \in 1..Len(ix) |-> v[ix[k] + 1]]
Upto(n) == [k \in 1..n |-> k - 1]
SelIx(ok) == LET f == FilterIdx(ok, 1, Len(ok)) IN [k \in 1..Len(f) |-> f[k] - 1]
Up(v) == \A i \in 2..Len(v) : v[i - 1] < v[i]
Down(v) == \A i \in 2..Len(v) : v[i - 1] > v[i]
WeakUp(v) == \A i \in 2..Len(v) : v[i - 1] <= v[i]
WeakDown(v) == \A i \in 2..Len(v) : v[i - 1] >= v[i]
Distinct(v) == Cardinality(ToSet(v)) = Len(v)
Even(v) == Len(v) >= 2 /\ v[1] # v[2] /\ \A i \in 3..Len(v) : v[i] - v[i - 1] = v[2] - v[1]
Grid(start, step, n) == [i \in 1..n |-> start + (i - 1) * step]
Shift(v, d) == [i \in 1..Len(v) |-> v[i] + d]
Abs(x) == IF x < 0 THEN 0 - x ELSE x
CeilDiv(a, b) == 0 - ((0 - a) \div b)          \* b > 0
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (0 - a) \div (0 - b)
CeilDivS(a, b) == 0 - FloorDiv(0 - a, b)
Min2(a, b) == IF a < b THEN a ELSE b
Max2c(a, b) == IF a > b THEN a ELSE b

(* ------------------------------------------------------------- selections *)
InRange(x, lo, hi) == (lo = NULL \/ x >= lo) /\ (hi = NULL \/ x <= hi)
RelVal(v, q) == IF q = NULL THEN NULL ELSE IF q >= 0 THEN MinOf(v) + q ELSE MaxOf(v) + q
RangeIx(v, a, b) ==
  LET swap == a # NULL /\ b # NULL /\ b < a
      lo == IF swap THEN b ELSE a
      hi == IF swap THEN a ELSE b
  IN SelIx([i \in 1..Len(v) |-> InRange(v[i], lo, hi)])
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
(* Python's slice(a, b, c) of a sequence of length n *)
SliceIx(n, a, b, c0) ==
  LET c == IF c0 = NULL THEN 1 ELSE c0
      lo == IF c > 0 THEN 0 ELSE 0 - 1
      hi == IF c > 0 THEN n ELSE n - 1
      norm(x, d) == IF x = NULL THEN d ELSE Clip(IF x < 0 THEN x + n ELSE x, lo, hi)
      s == norm(a, IF c > 0 THEN 0 ELSE n - 1)
      e == norm(b, IF c > 0 THEN n ELSE 0 - 1)
      m == IF c > 0 THEN (IF e > s THEN CeilDiv(e - s, c) ELSE 0)
           ELSE (IF s > e THEN CeilDiv(s - e, 0 - c) ELSE 0)
  IN [k \in 1..m |-> s + (k - 1) * c]
Wrap(n, arr) == [k \in 1..Len(arr) |-> IF arr[k] < 0 THEN arr[k] + n ELSE arr[k]]
InBounds(n, arr) == \A k \in 1..Len(arr) : arr[k] >= 0 - n /\ arr[k] < n
KeepBounds(n, arr) ==
  LET f == FilterIdx([k \in 1..Len(arr) |-> arr[k] >= 0 - n /\ arr[k] < n], 1, Len(arr))
  IN [k \in 1..Len(f) |-> arr[f[k]]]

(* which positions an operation must deliver; operations listed here have    *)
(* exactly one right answer                                                  *)
ExactOps == {"sel", "selsamp", "selarr", "selsamparr", "mask", "ordersamp", "slice", "take", "index"}
RightIx(v, o) ==
  LET n == Len(v) IN
  CASE o.op = "sel" -> IF n = 0 THEN <<>> ELSE
         IF o.rel = 1 THEN RangeIx(v, RelVal(v, o.lo), RelVal(v, o.hi)) ELSE RangeIx(v, o.lo, o.hi)
    [] o.op \in {"selsamp", "slice"} -> SliceIx(n, o.a, o.b, o.c)
    [] o.op = "selarr" -> SelIx([i \in 1..n |-> Has(IF o.rel = 1 THEN [k \in 1..Len(o.arr) |-> RelVal(v, o.arr[k])] ELSE o.arr, v[i])])
    [] o.op = "selsamparr" -> SelIx([i \in 1..n |-> Has(o.arr, i - 1)])
    [] o.op = "mask" -> SelIx([i \in 1..n |-> o.arr[i] = 1])
    [] o.op = "ordersamp" -> Wrap(n, KeepBounds(n, o.arr))
    [] o.op \in {"take", "index"} -> Wrap(n, o.arr)

(* labels in the order in which they were asked for *)
OrderVals(v, arr) == FlattenSeqs([k \in 1..Len(arr) |-> SelectSeq(v, LAMBDA x : x = arr[k])])
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
OrderBad(v, arr, ix, rv) ==
  (IF rv # OrderVals(v, arr) THEN {"values"} ELSE {})
  \cup (IF Len(ix) # Len(rv) THEN {"indexer"} ELSE IF Picks(v, ix) # rv THEN {"indexer"} ELSE {})
  \cup (IF \E i \in 1..Len(v) : Count(ix, i - 1) # Count(arr, v[i]) THEN {"indexer-count"} ELSE {})
SortBad(v, rev, ix, rv) ==
  (IF ~(IF rev = 1 THEN WeakDown(rv) ELSE WeakUp(rv)) THEN {"not-sorted"} ELSE {})
  \cup (IF Len(ix) # Len(v) \/ ToSet(ix) # {i - 1 : i \in 1..Len(v)} THEN {"indexer"}
        ELSE IF Len(rv) # Len(v) THEN {"values"} ELSE IF Picks(v, ix) # rv THEN {"values"} ELSE {})

(* -------------------------------------------------- positions and lengths *)
NextIx(v, q) == CHOOSE i \in 0..(Len(v) - 1) : v[i + 1] >= q /\ \A j \in 0..(i - 1) : v[j + 1] < q
Within(v, q) == q >= MinOf(v) /\ q <= MaxOf(v)
SampleCount(st, q) == CeilDiv(q, Abs(st))
(* evenly spaced from one extreme to the other; a step which is no whole      *)
(* number of ticks may be rounded                                             *)
SnapBad(v, rv) ==
  LET n == Len(v) mn == MinOf(v) mx == MaxOf(v) d == mx - mn
      up == ~(Down(v) /\ n > 1)
      want(i) == IF up THEN (n - 1) * mn + (i - 1) * d ELSE (n - 1) * mx - (i - 1) * d
  IN IF Len(rv) # n THEN {"length"}
     ELSE IF n = 1 THEN (IF rv # v THEN {"values"} ELSE {})
     ELSE (IF \E i \in 1..n : 2 * Abs((n - 1) * rv[i] - want(i)) > (n - 1) * (i + 1) THEN {"not-even"} ELSE {})
          \cup (IF d % (n - 1) = 0 /\ (MinOf(rv) # mn \/ MaxOf(rv) # mx) THEN {"limits-changed"} ELSE {})
(* moving a limit moves all labels, a new step keeps the first label          *)
Limits(v, ev, o) ==
  LET base == IF o.step = NULL THEN v
              ELSE IF ev = 1 THEN Grid(v[1], o.step, Len(v))
              ELSE Grid(IF Down(v) /\ Len(v) > 1 THEN MaxOf(v) ELSE MinOf(v), o.step, Len(v))
      m1 == IF o.min = NULL THEN base ELSE Shift(base, o.min - MinOf(base))
  IN IF o.max = NULL THEN m1 ELSE Shift(m1, o.max - MaxOf(m1))

(* ------------------------------------------------------------ construction *)
(* [start, stop) in steps; a remainder below a tenth of a step is noise       *)
RangeLen(a, b, st) == CeilDivS(b - a, st)
Made(o) ==
  CASE o.mode = "array" -> o.arr
    [] o.mode = "sss" -> Grid(o.start, o.step, RangeLen(o.start, o.stop, o.step))
    [] o.mode = "start" -> Grid(o.start, o.step, o.n)
    [] o.mode = "stop" -> Grid(o.stop - o.step * o.n, o.step, o.n)
    [] o.mode = "span" -> Grid(o.start, (o.stop - o.start) \div o.n, o.n)

(* --------------------------------------- what a coordinate says of itself *)
Consistent(c) ==
  LET v == c.v n == Len(c.v) IN IF Has(v, NULL) THEN {} ELSE
  (IF c.n # n \/ c.sh # <<n>> \/ c.size # n THEN {"says-length"} ELSE {})
  \cup (IF n > 0 /\ c.mn # MinOf(v) THEN {"says-min"} ELSE {})
  \cup (IF n > 0 /\ c.mx # MaxOf(v) THEN {"says-max"} ELSE {})
  \cup (IF c.ev = 1 /\ n > 1 /\ ~(Even(v) /\ c.st = v[2] - v[1]) THEN {"says-even"} ELSE {})
  \cup (IF c.ev = 1 /\ c.st = NULL THEN {"says-step"} ELSE {})
  \cup (IF n > 1 /\ c.so = 1 /\ ~WeakUp(v) THEN {"says-sorted"} ELSE {})
  \cup (IF n > 1 /\ c.rs = 1 /\ ~WeakDown(v) THEN {"says-reverse-sorted"} ELSE {})
  \cup (IF n > 1 /\ Up(v) /\ c.so = 0 THEN {"denies-sorted"} ELSE {})
  \cup (IF n > 1 /\ Down(v) /\ c.rs = 0 THEN {"denies-reverse-sorted"} ELSE {})
  \cup (IF c.arr # v THEN {"array"} ELSE {})
  \cup (IF n > 0 /\ c.rg # MaxOf(v) - MinOf(v) THEN {"range"} ELSE {})
  \cup (IF n > 0 /\ c.ev = 1 /\ c.st # NULL /\ c.rgx # MaxOf(v) - MinOf(v) + Abs(c.st) THEN {"range-extended"} ELSE {})

(* -------------------------------- the stored form of a range: start, step, n *)
(* the arithmetic which must agree with the sequence it stands for (CoordMC)   *)
RVal(r) == Grid(r.start, r.step, r.n)
RFloor(r, q) == FloorDiv(q - r.start, r.step)
RCeil(r, q) == CeilDivS(q - r.start, r.step)
RSelect(r, lo, hi) ==                            \* positions first..last, 0-based
  LET first == IF r.step > 0 THEN (IF lo = NULL THEN 0 ELSE RCeil(r, lo)) ELSE (IF hi = NULL THEN 0 ELSE RCeil(r, hi))
      last  == IF r.step > 0 THEN (IF hi = NULL THEN r.n - 1 ELSE RFloor(r, hi)) ELSE (IF lo = NULL THEN r.n - 1 ELSE RFloor(r, lo))
  IN [a |-> Max2c(first, 0), b |-> Min2(last, r.n - 1)]
=============================================================================
