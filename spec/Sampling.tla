------------------------------ MODULE Sampling ------------------------------
(* Operations which change where a patch is sampled along x.                 *)
(* A patch is [x, y, d, q]: labels of both dimensions, samples d[i][j] at    *)
(* x[i], y[j], and the values of a coordinate which belongs to x (<<>>: none).*)
(* Labels and samples are exact rationals.                                   *)
EXTENDS Units

Nan == <<1999999999, 1>>
Nx(p) == Len(p.x)
Ny(p) == Len(p.y)
Step(p) == RSub(p.x[2], p.x[1])
Even(p) == Nx(p) >= 2 /\ \A i \in 1..(Nx(p) - 1) : RSub(p.x[i + 1], p.x[i]) = Step(p)
Take(p, idx) == [p EXCEPT !.x = [i \in 1..Len(idx) |-> p.x[idx[i]]], !.d = [i \in 1..Len(idx) |-> p.d[idx[i]]],
                          !.q = IF p.q = <<>> THEN <<>> ELSE [i \in 1..Len(idx) |-> p.q[idx[i]]]]

(* every f-th sample, starting with the first *)
Decimate(p, f) == Take(p, [i \in 1..((Nx(p) + f - 1) \div f) |-> (i - 1) * f + 1])

(* b samples before and a after, filled with v *)
PadX(p, b, a, v, expand) ==
  LET n == Nx(p) IN
  [p EXCEPT !.x = [i \in 1..(n + a + b) |-> IF i > b /\ i <= b + n THEN p.x[i - b]
                                             ELSE IF expand /\ Even(p) THEN RAdd(p.x[1], RMul(I(i - 1 - b), Step(p))) ELSE Nan],
            !.d = [i \in 1..(n + a + b) |-> IF i > b /\ i <= b + n THEN p.d[i - b] ELSE [j \in 1..Ny(p) |-> v]]]
(* samples move by k places, the last come first again *)
Rot(q, k) == [i \in 1..Len(q) |-> q[((i - 1 - k) % Len(q)) + 1]]
RollX(p, k, lab) == IF lab THEN Take(p, Rot([i \in 1..Nx(p) |-> i], k)) ELSE [p EXCEPT !.d = Rot(p.d, k)]

(* the value at label v, on the line through the two samples around it (or through the two outermost) *)
Below(p, v) == {i \in 1..Nx(p) : RLe(p.x[i], v)}
Above(p, v) == {i \in 1..Nx(p) : RLt(v, p.x[i])}
MaxOf(p, S) == CHOOSE i \in S : \A k \in S : RLe(p.x[k], p.x[i])
MinOf(p, S) == CHOOSE i \in S : \A k \in S : RLe(p.x[i], p.x[k])
Bracket(p, v) ==
  LET lo == MaxOf(p, Below(p, v)) hi == MinOf(p, Above(p, v)) IN
  IF Below(p, v) = {} THEN LET k == MinOf(p, 1..Nx(p)) IN <<k, MinOf(p, (1..Nx(p)) \ {k})>>
  ELSE IF Above(p, v) = {} THEN LET k == MaxOf(p, 1..Nx(p)) IN <<MaxOf(p, (1..Nx(p)) \ {k}), k>>
  ELSE <<lo, hi>>
LinAt(p, v, j) ==
  LET b == Bracket(p, v) s == RDiv(RSub(p.d[b[2]][j], p.d[b[1]][j]), RSub(p.x[b[2]], p.x[b[1]]))
  IN RAdd(p.d[b[1]][j], RMul(s, RSub(v, p.x[b[1]])))
Dist(a, b) == IF RLt(a, b) THEN RSub(b, a) ELSE RSub(a, b)
Nearest(p, v) == CHOOSE i \in 1..Nx(p) : \A k \in 1..Nx(p) : RLe(Dist(p.x[i], v), Dist(p.x[k], v))
Interp(p, labels, kind) ==
  [p EXCEPT !.x = labels,
            !.d = [i \in 1..Len(labels) |-> IF kind = "nearest" THEN p.d[Nearest(p, labels[i])] ELSE [j \in 1..Ny(p) |-> LinAt(p, labels[i], j)]]]

(* differences over k steps, at the labels in between *)
Diff(p, k) ==
  [p EXCEPT !.x = [i \in 1..(Nx(p) - k) |-> RMul(<<1, 2>>, RAdd(p.x[i], p.x[i + k]))],
            !.d = [i \in 1..(Nx(p) - k) |-> [j \in 1..Ny(p) |-> RDiv(RSub(p.d[i + k][j], p.d[i][j]), RMul(I(k), Step(p)))]]]

RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN I(0) ELSE RAdd(SumTo(q, n - 1), q[n])
(* correlation with row s: at lag l the sum of products of samples l steps apart *)
Corr(p, s, j, lag) ==
  LET n == Nx(p) IN SumTo([i \in 1..n |-> IF i + lag \in 1..n THEN RMul(p.d[i + lag][j], p.d[i][s]) ELSE I(0)], n)

(* the discrete fourier transform, exact for 1, 2 and 4 samples: e^(-2 pi i m k / n) = (-i)^(4 m k / n) *)
Re(h) == IF h % 4 = 0 THEN 1 ELSE IF h % 4 = 2 THEN -1 ELSE 0
Im(h) == IF h % 4 = 1 THEN -1 ELSE IF h % 4 = 3 THEN 1 ELSE 0
Freq(p, i, real) == IF real THEN i - 1 ELSE i - 1 - (Nx(p) \div 2)
NFreq(p, real) == IF real THEN (Nx(p) \div 2) + 1 ELSE Nx(p)
DftLabel(p, i, real) == RDiv(I(Freq(p, i, real)), RMul(I(Nx(p)), Step(p)))
DftRe(p, i, j, real) == LET n == Nx(p) IN RMul(Step(p), SumTo([k \in 1..n |-> RMul(I(Re((4 \div n) * Freq(p, i, real) * (k - 1))), p.d[k][j])], n))
DftIm(p, i, j, real) == LET n == Nx(p) IN RMul(Step(p), SumTo([k \in 1..n |-> RMul(I(Im((4 \div n) * Freq(p, i, real) * (k - 1))), p.d[k][j])], n))

(* the derivative of the parabola through each sample and its neighbours k samples away *)
(* (the first or last three of these at the ends)                                       *)
Slope(xa, xb, xc, a, b, c, x) ==      \* at x
  LET t(u, v, w, f) == RMul(f, RDiv(RAdd(RSub(x, v), RSub(x, w)), RMul(RSub(u, v), RSub(u, w))))
  IN RAdd(t(xa, xb, xc, a), RAdd(t(xb, xa, xc, b), t(xc, xa, xb, c)))
Deriv(p, k) ==
  [p EXCEPT !.d = [i \in 1..Nx(p) |-> LET m == IF i - k < 1 THEN i + k ELSE IF i + k > Nx(p) THEN i - k ELSE i IN
     [j \in 1..Ny(p) |-> Slope(p.x[m - k], p.x[m], p.x[m + k], p.d[m - k][j], p.d[m][j], p.d[m + k][j], p.x[i])]]]
(* the integral up to each sample by trapezoids *)
Traps(p, j) == [i \in 1..(Nx(p) - 1) |-> RMul(RSub(p.x[i + 1], p.x[i]), RMul(<<1, 2>>, RAdd(p.d[i][j], p.d[i + 1][j])))]
Integ(p) == [p EXCEPT !.d = [i \in 1..Nx(p) |-> [j \in 1..Ny(p) |-> SumTo(Traps(p, j), i - 1)]]]

(* n labels from the first one over the same extent *)
ResLabels(p, n) == [i \in 1..n |-> RAdd(p.x[1], RMul(I(i - 1), RDiv(RMul(I(Nx(p)), Step(p)), I(n))))]
ColSum(p, j) == SumTo([i \in 1..Nx(p) |-> p.d[i][j]], Nx(p))
=============================================================================
