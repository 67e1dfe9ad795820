------------------------------ MODULE ArithMC ------------------------------
(* Exhaustive check of the laws the label-based definitions of Arith.tla     *)
(* must satisfy, over all pairs of small patches; every pair is also emitted *)
(* as a test for the implementation.                                         *)
EXTENDS Arith, Json
CONSTANTS MaxA,    \* labels of dimension a are arrangements of subsets of 0..MaxA
          Pairs,   \* explore all pairs; otherwise q is p
          Emit
VARIABLES p, q
vars == <<p, q>>

Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : f[i] = f[j] => i = j}
Ordered(S) == CHOOSE f \in Perms(S) : \A i \in 1..(Cardinality(S) - 1) : f[i] < f[i + 1]
SeqsA == UNION {Perms({1000 * x : x \in S}) : S \in (SUBSET (0..MaxA)) \ {{}}} \cup {<<NULL>>, <<NULL, NULL>>}
SeqsB == {<<0, 1000>>, <<1000, 0>>, <<1000>>, <<NULL>>}
Lab(d, v) == [d |-> <<d>>, v |-> v]
(* an additional coordinate which is a function of the label *)
Aux(v) == [d |-> <<"a">>, v |-> [i \in 1..Len(v) |-> 10 * v[i] + 500]]
Mk(dims, va, vb, aux, k) ==
  LET names == ToSet(dims) \cup (IF aux /\ ~Null(va) THEN {"x"} ELSE {})
      c == [n \in names |-> IF n = "a" THEN Lab("a", va) ELSE IF n = "b" THEN Lab("b", vb) ELSE Aux(va)]
      size == Prod([i \in 1..Len(dims) |-> Len(c[dims[i]].v)])
  IN [dims |-> dims, coords |-> c, data |-> [i \in 1..size |-> k * i]]
Ps(k) == {Mk(<<"a">>, v, <<>>, TRUE, k) : v \in SeqsA}
    \cup {Mk(<<"b">>, <<>>, v, FALSE, k) : v \in SeqsB}
    \cup {Mk(ds, v, w, aux, k) : ds \in {<<"a", "b">>, <<"b", "a">>}, v \in {x \in SeqsA : Len(x) # 2 \/ x[1] < x[2] \/ MaxA < 2},
                                 w \in SeqsB, aux \in {TRUE, FALSE}}
Init == p \in Ps(1) /\ q \in (IF Pairs THEN Ps(100) ELSE {p})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Ok == ~MayFail(<<p, q>>)
(* one concrete result: common labels in increasing order *)
Align1(s, d, v) == IF Null(s.coords[d].v) \/ s.coords[d].v = v THEN s
                   ELSE TakeDim(s, d, [i \in 1..Len(v) |-> IndexOf(s.coords[d].v, v[i])])
OutLabels(ps, d) ==
  LET S == Labelled(ps, d) IN
  IF S = {} THEN Longest(ps, Having(ps, d), d)
  ELSE IF AllEqual(ps, S, d) THEN ps[CHOOSE k \in S : TRUE].coords[d].v
  ELSE Ordered(Common(ps, d))
Blank(ps) ==
  LET dims == UnionDims(ps)
      c == [d \in ToSet(dims) |-> Lab(d, OutLabels(ps, d))]
      size == Prod([i \in 1..Len(dims) |-> Len(c[dims[i]].v)])
  IN [dims |-> dims, coords |-> c, data |-> [i \in 1..size |-> 0]]
Op(a, b, f) == LET r == Blank(<<a, b>>) IN [r EXCEPT !.data = BinData(a, b, r, f)]
Restrict(s, r) ==
  LET RECURSIVE go(_, _)
      go(x, ds) == IF ds = <<>> THEN x ELSE go(Align1(x, Head(ds), r.coords[Head(ds)].v), Tail(ds))
  IN go(s, s.dims)

Consistent == Ok => BinBad(p, q, Op(p, q, "add"), "add") = {}
Commutes == Ok => LET r == Op(p, q, "add") IN BinBad(q, p, Transpose(r, UnionDims(<<q, p>>)), "add") = {}
RestrictFirst == Ok => LET r == Op(p, q, "sub") IN Op(Restrict(p, r), Restrict(q, r), "sub") = r
SelfZero == (\A d \in ToSet(p.dims) : Unique(p.coords[d].v) \/ Null(p.coords[d].v)) =>
              \A k \in 1..Len(p.data) : Op(p, p, "sub").data[k] = 0
WhereTrue == Ok => LET t == [q EXCEPT !.data = [k \in 1..Len(q.data) |-> 1]]
                       r == Op(p, t, "mul") IN WhereBad(p, t, <<>>, 0, r) = {}
ReduceOrder == \A f \in {"sum", "min", "max"} :
                 Agg(p, p.dims, f, "empty", TRUE) = Agg(p, Rev(p.dims), f, "empty", TRUE)
AccLast == \A d \in ToSet(p.dims), f \in {"sum", "max"} :
             RedAxis(Accum(p, d, f).data, Shape(p), Axis(p, d), "last", FALSE)
               = RedAxis(p.data, Shape(p), Axis(p, d), f, FALSE)
RollOne == \A d \in ToSet(p.dims) : Rolling(p, d, "sum", 1, 1, FALSE) = p
RollStep == \A d \in ToSet(p.dims), w \in 1..3, s \in 1..3, c \in BOOLEAN :
              Rolling(p, d, "max", w, s, c) = TakeDim(Rolling(p, d, "max", w, 1, c), d, StrideIdx(DimLen(p, d), s))
RollShift == \A d \in ToSet(p.dims), w \in 1..3 :
               LET a == Rolling(p, d, "sum", w, 1, TRUE) b == Rolling(p, d, "sum", w, 1, FALSE) h == (w - 1) \div 2
                   n == DimLen(p, d)
               IN h < n => TakeDim(a, d, [i \in 1..(n - h) |-> i]).data = TakeDim(b, d, [i \in 1..(n - h) |-> i + h]).data
CatSplit == \A d \in ToSet(p.dims) :
              LET x == [p EXCEPT !.data = [k \in 1..Len(p.data) |-> 1000 + k]]
                  n == DimLen(p, d)
                  sh == [i \in 1..Len(p.dims) |-> IF p.dims[i] = d THEN 2 * n ELSE DimLen(p, p.dims[i])]
                  c == CatData(<<p, x>>, d, FALSE)
              IN /\ TakeAxis(c, sh, Axis(p, d), [i \in 1..n |-> i]) = p.data
                 /\ TakeAxis(c, sh, Axis(p, d), [i \in 1..n |-> n + i]) = x.data
EmitInv == Emit => PrintT("@@GEN " \o ToJson([p |-> p, q |-> q]))
=============================================================================
