------------------------------ MODULE UnitsMC ------------------------------
(* Every chain of set, convert and simplify on a quantity: conversions keep  *)
(* what the numbers stand for, chains equal the direct conversion.           *)
EXTENDS Units, Json
CONSTANTS MaxOps, Emit
VARIABLES q, q0, ops, since
vars == <<q, q0, ops, since>>
Vals == {<<I(0), I(7)>>, <<I(-3), I(20)>>, <<<<5, 2>>, I(12)>>}
Init == \E n \in Names, v \in Vals : q = Q(Table[n], v) /\ q0 = [u |-> n, v |-> v] /\ ops = <<>> /\ since = q
(* 32 bit integers *)
Small(x) == AbsI(x[1]) < 100000 /\ x[2] < 5000
Step(o, r, keep) == /\ Len(ops) < MaxOps /\ q' = r /\ (\A i \in 1..Len(r.base) : Small(r.base[i]) /\ Small(r.raw[i])) /\ ops' = Append(ops, o) /\ since' = (IF keep THEN since ELSE r) /\ UNCHANGED q0
Next == \/ \E n \in Names : Step([op |-> "set", u |-> n], SetQ(q, Table[n]), FALSE)
        \/ \E n \in Names \ {"none"} : CanConvert(q, Table[n]) /\ Step([op |-> "conv", u |-> n], ConvQ(q, Table[n]), q.u.none = 0)
        \/ Step([op |-> "simp", u |-> "none"], SimpQ(q), TRUE)
Spec == Init /\ [][Next]_vars
Consistent == q.base = Map(q.raw, LAMBDA x : Base(q.u, x))
(* what the numbers stand for survives conversions, and chains are direct *)
Kept == since.u.none = 0 => q.base = since.base /\ Same(q.u, since.u)
Direct == since.u.none = 0 => q.raw = Map(since.raw, LAMBDA x : Convert(since.u, q.u, x))
BackAgain == (\A i \in 1..Len(q.base) : AbsI(q.base[i][1]) < 5000) => \A n \in Names : (q.u.none = 0 /\ Table[n].none = 0 /\ Same(q.u, Table[n])) => ConvQ(ConvQ(q, Table[n]), q.u) = q
SimpIdem == SimpQ(SimpQ(q)) = SimpQ(q)
Group == \A n \in Names : LET u == Table[n] IN UMul(u, UInv(u)).dim = <<0, 0, 0>> /\ UMul(u, UInv(u)).f = <<1, 1>>
EmitInv == (Emit /\ Len(ops) = MaxOps) => PrintT("@@GEN " \o ToJson([q |-> q0, ops |-> ops]))
=============================================================================
