------------------------------ MODULE Shaping ------------------------------
(* Operations which scale, shift or replace samples in place: normalizing,   *)
(* detrending, tapering, muting, aligning, filling and dropping of nulls,    *)
(* median and hampel filters.  Patches as in Sampling; data may hold Nan/Inf.*)
EXTENDS Sampling

Inf == <<1999999998, 1>>
Num(v) == v # Nan /\ v # Inf
AbsR(v) == IF RLt(v, I(0)) THEN RSub(I(0), v) ELSE v
Col(p, j) == [i \in 1..Nx(p) |-> p.d[i][j]]
MapD(p, F(_, _)) == [p EXCEPT !.d = [i \in 1..Nx(p) |-> [j \in 1..Ny(p) |-> F(i, j)]]]
RECURSIVE MaxTo(_, _)
MaxTo(q, n) == IF n = 0 THEN I(0) ELSE LET m == MaxTo(q, n - 1) IN IF RLt(m, q[n]) THEN q[n] ELSE m
AbsCol(p, j) == [i \in 1..Nx(p) |-> IF Num(p.d[i][j]) THEN AbsR(p.d[i][j]) ELSE I(0)]
Divisor(p, i, j, kind) ==
  IF kind = "l1" THEN SumTo(AbsCol(p, j), Nx(p)) ELSE IF kind = "max" THEN MaxTo(AbsCol(p, j), Nx(p)) ELSE AbsCol(p, j)[i]
(* nulls stay null, rows of zeros stay zero *)
Scale(p, kind) ==
  MapD(p, LAMBDA i, j : LET v == Divisor(p, i, j, kind) IN IF ~Num(p.d[i][j]) \/ v = I(0) THEN p.d[i][j] ELSE RDiv(p.d[i][j], v))

Mean(q) == RDiv(SumTo(q, Len(q)), I(Len(q)))
Slp(q) == LET n == Len(q) c(i) == Norm(2 * i - n - 1, 2) num == SumTo([i \in 1..n |-> RMul(c(i), q[i])], n)
             den == SumTo([i \in 1..n |-> RMul(c(i), c(i))], n)
         IN IF n < 2 THEN I(0) ELSE RDiv(num, den)
Detrend(p, kind) ==
  MapD(p, LAMBDA i, j : LET q == Col(p, j) m == Mean(q) n == Nx(p) IN
    RSub(p.d[i][j], IF kind = "constant" THEN m ELSE RAdd(m, RMul(Slp(q), Norm(2 * i - n - 1, 2)))))

(* a triangular taper of the samples within h of the first label and within t of the last; Nan: none *)
Lo(p) == p.x[MinOf(p, 1..Nx(p))]
Hi(p) == p.x[MaxOf(p, 1..Nx(p))]
HeadN(p, h) == IF h = Nan THEN 0 ELSE Cardinality({i \in 1..Nx(p) : RLe(RSub(p.x[i], Lo(p)), h)})
TailN(p, t) == IF t = Nan THEN 0 ELSE Cardinality({i \in 1..Nx(p) : RLe(RSub(Hi(p), p.x[i]), t)})
TaperOk(p, h, t) == HeadN(p, h) + TailN(p, t) <= Nx(p)
Ramp(k, v) == Norm(2 * k - 1, 2 * v)
Taper(p, h, t) ==
  LET a == HeadN(p, h) b == TailN(p, t) n == Nx(p) IN
  MapD(p, LAMBDA i, j : RMul(p.d[i][j], RMul(IF i <= a THEN Ramp(i, a) ELSE I(1), IF i > n - b THEN Ramp(n + 1 - i, b) ELSE I(1))))

(* a taper from label a (weight 0) to b (1) and from c (1) to d (0): triangular windows *)
First(p, v) == Cardinality({i \in 1..Nx(p) : RLt(p.x[i], v)})      \* samples before the label
Lin(p, i, f, l) ==        \* weights of the samples f+1..l, rising from 1/(s+1) to s/(s+1) with the label
  LET s == l - f IN
  IF s = 1 THEN <<1, 2>> ELSE RAdd(Norm(1, s + 1), RMul(Norm(s - 1, s + 1), RDiv(RSub(p.x[i], p.x[f + 1]), RSub(p.x[l], p.x[f + 1]))))
Fall(p, i, f, l) ==
  LET s == l - f IN
  IF s = 1 THEN <<1, 2>> ELSE RSub(Norm(s, s + 1), RMul(Norm(s - 1, s + 1), RDiv(RSub(p.x[i], p.x[f + 1]), RSub(p.x[l], p.x[f + 1]))))
Weight(p, q, i) ==        \* q: the numbers of samples before the four labels
  IF i > q[1] /\ i <= q[2] THEN Lin(p, i, q[1], q[2]) ELSE IF i > q[2] /\ i <= q[3] THEN I(1)
  ELSE IF i > q[3] /\ i <= q[4] THEN Fall(p, i, q[3], q[4]) ELSE I(0)
TaperRange(p, q, inv) ==
  MapD(p, LAMBDA i, j : RMul(p.d[i][j], IF inv THEN RSub(I(1), Weight(p, q, i)) ELSE Weight(p, q, i)))

(* zero within (or outside) the labels *)
Mute(p, lo, hi, inv) ==
  MapD(p, LAMBDA i, j : IF ((lo = Nan \/ RLe(lo, p.x[i])) /\ (hi = Nan \/ RLe(p.x[i], hi))) # inv THEN I(0) ELSE p.d[i][j])
(* between the two slopes (dx/dy) from the first labels; a point on a line counts as either *)
Rel(p, i, j) == <<Dist(p.x[i], p.x[1]), Dist(p.y[j], p.y[1])>>
Cross(r, s) == RSub(r[1], RMul(s, r[2]))           \* > 0: steeper than the slope
Between(p, i, j, s1, s2) == LET r == Rel(p, i, j) a == Cross(r, s1) b == Cross(r, s2) IN
  IF a = I(0) \/ b = I(0) THEN "line" ELSE IF RLt(a, I(0)) # RLt(b, I(0)) THEN "in" ELSE "out"
SlopeOk(p, r, s1, s2, inv) ==
  \A i \in 1..Nx(p), j \in 1..Ny(p) :
    LET w == Between(p, i, j, s1, s2) IN
    IF w = "line" THEN r.d[i][j] \in {I(0), p.d[i][j]} ELSE r.d[i][j] = (IF (w = "in") # inv THEN I(0) ELSE p.d[i][j])

(* each row moves along x by its own number of samples; lo, hi: how far the result reaches beyond the patch *)
SMin(s) == CHOOSE v \in {s[j] : j \in DOMAIN s} : \A j \in DOMAIN s : v <= s[j]
SMax(s) == CHOOSE v \in {s[j] : j \in DOMAIN s} : \A j \in DOMAIN s : v >= s[j]
Align(p, s, mode, fill) ==
  LET n == Nx(p)
      lo == IF mode = "full" THEN SMin(s) ELSE IF mode = "same" THEN 0 ELSE IF SMax(s) > 0 THEN SMax(s) ELSE 0
      hi == IF mode = "full" THEN SMax(s) ELSE IF mode = "same" THEN 0 ELSE IF SMin(s) < 0 THEN SMin(s) ELSE 0
      m == n + hi - lo
  IN [p EXCEPT !.x = [k \in 1..m |-> RAdd(p.x[1], RMul(I(k - 1 + lo), Step(p)))],
               !.d = [k \in 1..m |-> [j \in 1..Ny(p) |-> LET i == k + lo - s[j] IN IF i \in 1..n THEN p.d[i][j] ELSE fill]]]

Null(v, inf) == v = Nan \/ (inf /\ v = Inf)
Fill(p, v, inf) == MapD(p, LAMBDA i, j : IF Null(p.d[i][j], inf) THEN v ELSE p.d[i][j])
RECURSIVE SetSeqI(_)
SetSeqI(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE v \in S : \A w \in S : v <= w IN <<m>> \o SetSeqI(S \ {m})
DropX(p, how, inf) ==
  Take(p, SetSeqI({i \in 1..Nx(p) : IF how = "any" THEN \A j \in 1..Ny(p) : ~Null(p.d[i][j], inf) ELSE \E j \in 1..Ny(p) : ~Null(p.d[i][j], inf)}))
(* the same patch with its dimensions exchanged *)
Tr(p) == [x |-> p.y, y |-> p.x, d |-> [j \in 1..Ny(p) |-> [i \in 1..Nx(p) |-> p.d[i][j]]], q |-> <<>>]

(* medians over windows of wx by wy samples, reflected at the ends *)
RECURSIVE Refl(_, _)
Refl(i, n) == IF i < 1 THEN Refl(1 - i, n) ELSE IF i > n THEN Refl(2 * n + 1 - i, n) ELSE i
(* the value v of a bag q with at most half of the values below and above *)
Below2(q, v) == Cardinality({k \in DOMAIN q : RLt(q[k], v)})
UpTo2(q, v) == Cardinality({k \in DOMAIN q : RLe(q[k], v)})
Med(q) == LET h == Len(q) \div 2 IN CHOOSE v \in {q[k] : k \in DOMAIN q} : Below2(q, v) <= h /\ UpTo2(q, v) > h
Window(p, i, j, wx, wy) ==
  [k \in 1..(wx * wy) |-> LET a == (k - 1) \div wy b == (k - 1) % wy IN
     p.d[Refl(i - (wx \div 2) + a, Nx(p))][Refl(j - (wy \div 2) + b, Ny(p))]]
Median(p, wx, wy) == MapD(p, LAMBDA i, j : Med(Window(p, i, j, wx, wy)))
Hampel(p, wx, wy, thr) ==
  LET m == Median(p, wx, wy)
      e == MapD(p, LAMBDA i, j : AbsR(RSub(p.d[i][j], m.d[i][j])))
      s == Median(e, wx, wy)
  IN MapD(p, LAMBDA i, j : IF RLt(RMul(thr, s.d[i][j]), e.d[i][j]) THEN m.d[i][j] ELSE p.d[i][j])
=============================================================================
