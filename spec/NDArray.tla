------------------------------ MODULE NDArray ------------------------------
(* N-dimensional arrays as flat row-major sequences plus a shape.            *)
(* Every data sample in the scenarios carries a unique integer id, so an     *)
(* equality of flat sequences says *which* sample sits in which cell.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE ProdFrom(_, _, _)
ProdFrom(s, i, j) == IF i > j THEN 1 ELSE s[i] * ProdFrom(s, i + 1, j)
Prod(s) == ProdFrom(s, 1, Len(s))

(* positions of the elements of seq s *)
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
ToSet(s) == {s[i] : i \in 1..Len(s)}

(* Take slices idx (1-based, may repeat / reorder) along axis ax. *)
TakeAxis(arr, shape, ax, idx) ==
  LET inner == ProdFrom(shape, ax + 1, Len(shape))
      outer == ProdFrom(shape, 1, ax - 1)
      n     == shape[ax]
      m     == Len(idx)
  IN [k \in 1..(outer * m * inner) |->
        LET i == (k - 1) \div inner
            r == (k - 1) % inner
            j == i % m
            o == i \div m
        IN arr[(o * n + idx[j + 1] - 1) * inner + r + 1]]

(* multi-index (0-based sequence) of flat position k (0-based) *)
MultiIndex(k, shape) ==
  [a \in 1..Len(shape) |-> (k \div ProdFrom(shape, a + 1, Len(shape))) % shape[a]]
RECURSIVE FlatIndexFrom(_, _, _)
FlatIndexFrom(mi, shape, a) ==
  IF a > Len(shape) THEN 0
  ELSE mi[a] * ProdFrom(shape, a + 1, Len(shape)) + FlatIndexFrom(mi, shape, a + 1)
FlatIndex(mi, shape) == FlatIndexFrom(mi, shape, 1)

(* perm[i] = old axis which becomes new axis i *)
TransposeArr(arr, shape, perm) ==
  LET new == [i \in 1..Len(perm) |-> shape[perm[i]]]
  IN [k \in 1..Len(arr) |->
        LET mi  == MultiIndex(k - 1, new)
            old == [a \in 1..Len(shape) |-> mi[IndexOf(perm, a)]]
        IN arr[FlatIndex(old, shape) + 1]]

(* data broadcast over new trailing axes of total size n *)
RepeatLast(arr, n) == [k \in 1..(Len(arr) * n) |-> arr[(k - 1) \div n + 1]]

RECURSIVE FilterIdx(_, _, _)
(* increasing sequence of i in lo..hi such that ok[i] *)
FilterIdx(ok, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF ok[lo] THEN <<lo>> \o FilterIdx(ok, lo + 1, hi)
  ELSE FilterIdx(ok, lo + 1, hi)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) - i + 1]]
MinOf(s) == CHOOSE x \in ToSet(s) : \A y \in ToSet(s) : x <= y
MaxOf(s) == CHOOSE x \in ToSet(s) : \A y \in ToSet(s) : x >= y
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE FlattenSeqs(_)
FlattenSeqs(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeqs(Tail(ss))
Pad2(a, b) == Max2(a, b)
=============================================================================
