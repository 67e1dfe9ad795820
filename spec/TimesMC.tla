------------------------------ MODULE TimesMC ------------------------------
(* Sequences of conversions of a pair of values.                             *)
EXTENDS Times, Json
CONSTANTS MaxOps, Emit
VARIABLES orig, q, hist
vars == <<orig, q, hist>>
Amounts == {<<d, s, n>> : d \in {-1, 0, 18000}, s \in {0, 1, 86399}, n \in {0, 1, 999999999}}
Vals == {V(k, a) : k \in {"dt", "td", "num"}, a \in Amounts} \cup {Null}
Funs == {"to_datetime64", "to_timedelta64", "to_float", "to_int"}
Init == \E x \in Vals, y \in {V("dt", Zero), V("td", <<0, 0, 1>>), V("num", <<-1, 86399, 0>>), Null} :
          q = <<x, y>> /\ orig = <<x, y>> /\ hist = <<>>
Kinds == {q[i].k : i \in 1..2} \ {"null"}
Next == /\ Len(hist) < MaxOps
        /\ \E f \in Funs : /\ \A i \in 1..2 : Takes(f, q[i].k)
                           /\ q' = ConvAll(f, q) /\ hist' = Append(hist, f) /\ orig' = orig
Spec == Init /\ [][Next]_vars

(* no conversion changes an amount or makes missing values appear *)
Kept == \A i \in 1..2 : q[i].v = orig[i].v /\ (IsNull(q[i]) <=> IsNull(orig[i]))
Normal == \A i \in 1..2 : Norm(q[i].v[1], q[i].v[2], q[i].v[3]) = q[i].v
(* only the last conversion matters, except that numbers stay numbers *)
Last == hist # <<>> => LET f == hist[Len(hist)] IN
          f # "to_int" => \A i \in 1..2 : q[i] = Conv(f, orig[i])
Idem == hist # <<>> => LET f == hist[Len(hist)] IN (\A i \in 1..2 : Takes(f, q[i].k)) => ConvAll(f, q) = q \/ f = "to_int"
Order == (~IsNull(q[1]) /\ ~IsNull(q[2])) => (TLe(q[1].v, q[2].v) <=> TLe(orig[1].v, orig[2].v))
Sums == LET a == q[1].v b == q[2].v IN TAdd(a, TNeg(a)) = Zero /\ TAdd(a, b) = TAdd(b, a) /\ TAdd(TAdd(a, b), TNeg(b)) = a
EmitInv == IF Emit /\ hist # <<>> THEN PrintT("@@GEN " \o ToJson([orig |-> orig, ops |-> hist])) ELSE TRUE
=============================================================================
