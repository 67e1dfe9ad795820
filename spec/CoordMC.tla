------------------------------- MODULE CoordMC -------------------------------
(* The stored form of evenly sampled coordinates against the sequences they  *)
(* stand for: every range, query and operation within the constants.         *)
EXTENDS Coord, Json
CONSTANTS MaxN, Span, MaxOps, Emit
VARIABLES r, v, ops
vars == <<r, v, ops>>
Steps == {0 - 3, 0 - 2, 2, 3}
Qs == {NULL} \cup ((0 - Span)..Span)
Init == \E n \in 1..MaxN, st \in Steps, s \in {0 - 1, 0, 2} :
          r = [start |-> s, step |-> st, n |-> n] /\ v = Grid(s, st, n) /\ ops = <<[op |-> "make", start |-> s, step |-> st, n |-> n]>>

Sub(rr, a, b) == [start |-> rr.start + a * rr.step, step |-> rr.step, n |-> b - a + 1]
DoSel == \E lo \in Qs, hi \in Qs :
           /\ (lo = NULL \/ hi = NULL \/ lo <= hi)
           /\ LET s == RSelect(r, lo, hi) IN
              /\ s.a <= s.b
              /\ r' = Sub(r, s.a, s.b)
              /\ v' = Picks(v, RangeIx(v, lo, hi))
              /\ ops' = Append(ops, [op |-> "sel", lo |-> lo, hi |-> hi, rel |-> 0])
DoSlice == \E a \in {NULL, 0 - 2, 1}, b \in {NULL, 0 - 1, 3}, c \in {NULL, 0 - 1, 2, 0 - 2} :
             LET ix == SliceIx(r.n, a, b, c) IN
             /\ ix # <<>>
             /\ r' = [start |-> r.start + ix[1] * r.step, step |-> r.step * (IF c = NULL THEN 1 ELSE c), n |-> Len(ix)]
             /\ v' = Picks(v, ix)
             /\ ops' = Append(ops, [op |-> "slice", a |-> a, b |-> b, c |-> c])
DoSort == \E rev \in {0, 1} :
            /\ r' = IF (rev = 1) = (r.step < 0) THEN r
                    ELSE [start |-> r.start + (r.n - 1) * r.step, step |-> 0 - r.step, n |-> r.n]
            /\ v' = (IF (rev = 1) = (r.step < 0) THEN v ELSE Rev(v))
            /\ ops' = Append(ops, [op |-> "sort", rev |-> rev])
DoMin == \E m \in {0 - 1, 2} :
           /\ r' = [r EXCEPT !.start = @ + m - MinOf(v)]
           /\ v' = Limits(v, 1, [min |-> m, max |-> NULL, step |-> NULL])
           /\ ops' = Append(ops, [op |-> "limits", min |-> m, max |-> NULL, step |-> NULL])
DoMax == \E m \in {0 - 1, 3}, st \in {NULL, 2, 0 - 2} :
           /\ LET r1 == IF st = NULL THEN r ELSE [r EXCEPT !.step = st]
              IN r' = [r1 EXCEPT !.start = @ + m - MaxOf(RVal(r1))]
           /\ v' = Limits(v, 1, [min |-> NULL, max |-> m, step |-> st])
           /\ ops' = Append(ops, [op |-> "limits", min |-> NULL, max |-> m, step |-> st])
DoLen == \E n \in 1..MaxN :
           /\ r' = [r EXCEPT !.n = n]
           /\ v' = [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE v[1] + (i - 1) * r.step]
           /\ ops' = Append(ops, [op |-> "chlen", n |-> n])
Next == Len(ops) <= MaxOps /\ (DoSel \/ DoSlice \/ DoSort \/ DoMin \/ DoMax \/ DoLen)
Spec == Init /\ [][Next]_vars
View == <<r, v, Len(ops)>>

Represents == v = RVal(r)
SelectAgrees ==
  \A lo \in Qs, hi \in Qs : (lo = NULL \/ hi = NULL \/ lo <= hi) =>
     LET s == RSelect(r, lo, hi) IN
     RangeIx(v, lo, hi) = (IF s.a > s.b THEN <<>> ELSE [k \in 1..(s.b - s.a + 1) |-> s.a + k - 1])
NextAgrees == r.step > 0 => \A q \in (0 - Span)..Span : Within(v, q) => NextIx(v, q) = RCeil(r, q)
Tight == RangeLen(r.start, r.start + r.n * r.step, r.step) = r.n
CountAgrees == \A q \in 1..Span : LET k == SampleCount(r.step, q) IN k * Abs(r.step) >= q /\ (k - 1) * Abs(r.step) < q
EmitInv == (Emit /\ Len(ops) = MaxOps + 1) =>
             PrintT("@@GEN " \o ToJson([ops |-> ops]))
=============================================================================
