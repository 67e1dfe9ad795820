----------------------------- MODULE ShapingMC -----------------------------
(* Laws of the operations on small patches, and generated histories.         *)
EXTENDS Shaping, Json
CONSTANTS MaxOps, Emit, Big
VARIABLES orig, p, hist
vars == <<orig, p, hist>>
Coords == {<<I(0), I(1), I(2)>>, <<I(0), I(1), I(3)>>}
Vals == IF Big THEN {-1, 0, 2} ELSE {0, 2}
Datas(n) == {[i \in 1..n |-> <<I(f[i]), I(g)>>] : f \in [1..n -> Vals], g \in {1}}
Init == \E x \in Coords : \E d \in Datas(Len(x)) :
          p = [x |-> x, y |-> <<I(0), I(1)>>, d |-> d, q |-> [i \in 1..Len(x) |-> i]] /\ orig = p /\ hist = <<>>
Do(o, r) == p' = r /\ hist' = Append(hist, o) /\ orig' = p
On(dim, F(_)) == IF dim = "y" THEN [Tr(F(Tr(p))) EXCEPT !.q = p.q] ELSE F(p)
NoNull == \A i \in 1..Nx(p), j \in 1..Ny(p) : Num(p.d[i][j])
Kept(x) == Even(x) \/ Nx(x) # 2
Next ==
  /\ Len(hist) < MaxOps /\ Nx(p) >= 2 /\ Ny(p) >= 1
  /\ \/ \E dim \in {"x", "y"}, k \in {"l1", "max", "bit"} : Do([op |-> "norm", dim |-> dim, kind |-> k], On(dim, LAMBDA s : Scale(s, k)))
     \/ \E dim \in {"x", "y"}, k \in {"constant", "linear"} : NoNull /\ Even(p) /\ Do([op |-> "detrend", dim |-> dim, kind |-> k], On(dim, LAMBDA s : Detrend(s, k)))
     \/ \E q \in {<<0, 1, 2, 3>>, <<0, 2, 2, 3>>, <<1, 1, 2, 3>>}, inv \in {0, 1} : NoNull /\ Nx(p) >= 3 /\ Do([op |-> "range", dim |-> "x", q |-> q, inv |-> inv], TaperRange(p, q, inv = 1))
     \/ \E lo \in {Nan, I(1)}, inv \in {0, 1} : NoNull /\ Do([op |-> "mute", dim |-> "x", lo |-> lo, hi |-> I(2), inv |-> inv], Mute(p, lo, I(2), inv = 1))
     \/ \E a \in {-1, 0, 1}, mode \in {"full", "same", "valid"} : Ny(p) = 2 /\ Even(p) /\ Do([op |-> "align", dim |-> "x", sh |-> <<a, 1>>, mode |-> mode, fill |-> Nan], [Align(p, <<a, 1>>, mode, Nan) EXCEPT !.q = <<>>])
     \/ Do([op |-> "fill", dim |-> "x", fill |-> I(5), inf |-> 1], Fill(p, I(5), TRUE))
     \/ \E dim \in {"x", "y"}, k \in {"any", "all"} : Do([op |-> "drop", dim |-> dim, kind |-> k, inf |-> 1], On(dim, LAMBDA s : DropX(s, k, TRUE)))
     \/ NoNull /\ Do([op |-> "median", dim |-> "x", wx |-> 3, wy |-> 1], Median(p, 3, 1))
Spec == Init /\ [][Next]_vars
Shapes == Len(p.d) = Nx(p) /\ (p.q = <<>> \/ Len(p.q) = Nx(p)) /\ \A i \in 1..Nx(p) : Len(p.d[i]) = Ny(p)
Last == IF hist = <<>> THEN [op |-> ""] ELSE hist[Len(hist)]
(* scaled samples are at most 1, and scaling once more changes nothing *)
ScaleOk == \A k \in {"l1", "max", "bit"} : LET s == Scale(p, k) IN
  (\A i \in 1..Nx(p), j \in 1..Ny(p) : Num(s.d[i][j]) => RLe(AbsR(s.d[i][j]), I(1))) /\ Scale(s, k) = s
DetrendOk == NoNull => \A k \in {"constant", "linear"} : LET s == Detrend(p, k) IN
  Detrend(s, k) = s /\ \A j \in 1..Ny(p) : ColSum(s, j) = I(0)
(* what a mute or range taper removes and what its inverse removes is everything *)
Halves == NoNull /\ Nx(p) >= 3 =>
  LET sum(a, b) == MapD(p, LAMBDA i, j : RAdd(a.d[i][j], b.d[i][j])) IN
  /\ \A q \in {<<0, 1, 2, 3>>, <<0, 2, 2, 3>>, <<1, 1, 1, 2>>} : sum(TaperRange(p, q, TRUE), TaperRange(p, q, FALSE)) = p
  /\ \A lo \in {Nan, I(1)} : sum(Mute(p, lo, I(2), TRUE), Mute(p, lo, I(2), FALSE)) = p
(* aligning fully loses nothing: shifting back and taking the old labels gives the old patch *)
AlignOk == Even(p) /\ Ny(p) = 2 => \A a \in -1..1, b \in -1..1 :
  LET f == Align(p, <<a, b>>, "full", Nan) g == Align(f, <<-a, -b>>, "full", Nan)
      v == Align(p, <<a, b>>, "valid", Nan) z == Align(p, <<a, b>>, "same", Nan) IN
  /\ \A i \in 1..Nx(p) : \E k \in 1..Nx(g) : g.x[k] = p.x[i] /\ g.d[k] = p.d[i]
  /\ \A k \in 1..Nx(v) : \E i \in 1..Nx(f) : f.x[i] = v.x[k] /\ f.d[i] = v.d[k]
  /\ z.x = p.x /\ \A k \in 1..Nx(z) : \A i \in 1..Nx(f) : f.x[i] = z.x[k] => f.d[i] = z.d[k]
NullsOk == Ny(p) >= 1 => LET f == Fill(p, I(5), TRUE) d == DropX(p, "any", TRUE) a == DropX(p, "all", TRUE) IN
  /\ \A i \in 1..Nx(p), j \in 1..Ny(p) : Num(f.d[i][j])
  /\ \A i \in 1..Nx(d), j \in 1..Ny(d) : Num(d.d[i][j])
  /\ Nx(d) <= Nx(a) /\ DropX(f, "any", TRUE) = f /\ \A i \in 1..Nx(a) : \E k \in 1..Nx(p) : a.x[i] = p.x[k] /\ a.d[i] = p.d[k]
MedianOk == NoNull /\ Nx(p) >= 1 =>
  /\ Median(p, 1, 1) = p /\ Hampel(p, 3, 1, I(1000)).d = Hampel(p, 3, 1, I(1000)).d
  /\ \A i \in 1..Nx(p), j \in 1..Ny(p) : \E k \in 1..Nx(p) : Median(p, 3, 1).d[i][j] = p.d[k][j]
EmitInv == IF Emit /\ hist # <<>> THEN PrintT("@@GEN " \o ToJson([ops |-> hist])) ELSE TRUE
=============================================================================
