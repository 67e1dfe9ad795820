----------------------------- MODULE SamplingMC -----------------------------
(* Laws of the sampling operations on small patches, and generated histories. *)
EXTENDS Sampling, Json
CONSTANTS MaxOps, Emit
VARIABLES orig, p, hist
vars == <<orig, p, hist>>
Ys == <<I(0)>>
Coords == {<<I(0), I(1), I(2), I(3)>>, <<I(3), I(1), I(-1)>>, <<I(0), I(2), I(3)>>, <<I(0), <<1, 2>>>>}
Vals == {-1, 0, 2}
Datas(n) == {[i \in 1..n |-> <<I(f[i])>>] : f \in [1..n -> Vals]}
Init == \E x \in Coords : \E d \in Datas(Len(x)) :
          p = [x |-> x, y |-> Ys, d |-> d, q |-> [i \in 1..Len(x) |-> i]] /\ orig = p /\ hist = <<>>
Do(o, r) == p' = r /\ hist' = Append(hist, o) /\ orig' = p
NoQ(r) == [r EXCEPT !.q = <<>>]
Next == /\ Len(hist) < MaxOps /\ Nx(p) >= 2
        /\ \/ \E f \in 1..3 : Do([op |-> "dec", f |-> f], IF f = 1 THEN p ELSE Decimate(p, f))
           \/ \E b \in 0..1, a \in 0..2 : Even(p) /\ Do([op |-> "pad", b |-> b, a |-> a, v |-> 7, expand |-> TRUE], IF a + b = 0 THEN p ELSE NoQ(PadX(p, b, a, I(7), TRUE)))
           \/ \E k \in {-1, 1, 2}, lab \in BOOLEAN : Even(p) /\ Do([op |-> "roll", k |-> k, lab |-> lab], RollX(p, k, lab))
           \/ \E h \in {<<1, 4>>, <<1, 2>>} : Cardinality({p.x[i] : i \in 1..Nx(p)}) = Nx(p) /\ Do([op |-> "mid", h |-> h],
                NoQ(Interp(p, [i \in 1..(Nx(p) - 1) |-> RAdd(p.x[i], RMul(h, RSub(p.x[i + 1], p.x[i])))], "linear")))
           \/ \E k \in 1..2 : Nx(p) > k /\ Even(p) /\ Do([op |-> "diff", k |-> k], NoQ(Diff(p, k)))
Spec == Init /\ [][Next]_vars
Shapes == Len(p.d) = Nx(p) /\ (p.q = <<>> \/ Len(p.q) = Nx(p)) /\ \A i \in 1..Nx(p) : Len(p.d[i]) = Ny(p)
LastOp == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
(* decimation and rolling with labels keep each sample at its label *)
KeepsLabels == LastOp \in {"dec"} \/ (LastOp = "roll" /\ hist[Len(hist)].lab) =>
  \A i \in 1..Nx(p) : \E k \in 1..Nx(orig) : orig.x[k] = p.x[i] /\ orig.d[k] = p.d[i]
(* padding keeps every sample at its label *)
PadKeeps == LastOp = "pad" => \A k \in 1..Nx(orig) : \E i \in 1..Nx(p) : orig.x[k] = p.x[i] /\ orig.d[k] = p.d[i]
(* interpolating back at the old labels of linear data changes nothing *)
InterpId == Nx(p) >= 2 /\ Cardinality({p.x[i] : i \in 1..Nx(p)}) = Nx(p) => Interp(p, p.x, "linear").d = p.d /\ Interp(p, p.x, "nearest").d = p.d
(* rolling back undoes rolling *)
RollBack == Nx(p) >= 1 => \A k \in 1..3, lab \in BOOLEAN : RollX(RollX(p, k, lab), -k, lab) = p
(* the transform of zero frequency is the integral; Parseval *)
DftOk == Nx(p) \in {2, 4} /\ Even(p) =>
  LET n == Nx(p) z == (n \div 2) + 1 IN
  /\ DftRe(p, z, 1, FALSE) = RMul(Step(p), ColSum(p, 1)) /\ DftIm(p, z, 1, FALSE) = I(0)
  /\ \A i \in 1..NFreq(p, TRUE) : \E k \in 1..n : (DftLabel(p, k, FALSE) = DftLabel(p, i, TRUE) \/ i = NFreq(p, TRUE))
(* differences of the integral are the means in between; the slope of an integral's parabola is the samples' *)
Calculus == Even(p) =>
  /\ \A i \in 1..(Nx(p) - 1) : Diff(Integ(p), 1).d[i][1] = RMul(<<1, 2>>, RAdd(p.d[i][1], p.d[i + 1][1]))
  /\ Nx(p) >= 3 => \A i \in 2..(Nx(p) - 1) : Deriv(p, 1).d[i][1] = RDiv(RSub(p.d[i + 1][1], p.d[i - 1][1]), RMul(I(2), Step(p)))
  /\ Nx(p) >= 3 => LET lin == [p EXCEPT !.d = [i \in 1..Nx(p) |-> <<RAdd(RMul(I(3), p.x[i]), I(1))>>]]
                   IN \A i \in 1..Nx(p) : Deriv(lin, 1).d[i][1] = I(3)
(* correlating with itself is symmetric and largest at lag 0 *)
CorrOk == Nx(p) >= 1 => \A l \in 1..Nx(p) : Corr(p, 1, 1, l) = Corr(p, 1, 1, -l) /\ RLe(Corr(p, 1, 1, l), Corr(p, 1, 1, 0))
EmitInv == IF Emit /\ hist # <<>> THEN PrintT("@@GEN " \o ToJson([ops |-> hist])) ELSE TRUE
=============================================================================
