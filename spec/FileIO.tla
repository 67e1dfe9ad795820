------------------------------- MODULE FileIO -------------------------------
(***************************************************************************)
(* Files as collections of patches (property C14).                         *)
(*                                                                         *)
(* A stored record has                                                     *)
(*   f     : field -> digest   everything a user can observe on the patch  *)
(*   s     : field -> text     what a scan says about it                   *)
(*   ident : identity (attributes and coordinate summaries); a patch       *)
(*           written again with the same identity may replace the old one  *)
(*   sup   : 1 when such a later patch has been written (either outcome is *)
(*           allowed: kept or replaced)                                    *)
(* and the sample level fields of Spool.tla, used for partial reads.       *)
(***************************************************************************)
EXTENDS Spool

Supersede(old, ps) ==
  [i \in 1..Len(old) |->
     IF \E k \in 1..Len(ps) : ps[k].ident = old[i].ident THEN [old[i] EXCEPT !.sup = 1] ELSE old[i]]
(* formats which hold a growing collection / are rewritten by each write *)
Write(old, ps, grows) == IF grows THEN Supersede(old, ps) \o ps ELSE ps

CountF(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Field(s, k) == [i \in 1..Len(s) |-> s[i][k]]
Live(file) == Pick(file, FilterIdx([i \in 1..Len(file) |-> file[i].sup = 0], 1, Len(file)))

Get(r, k) == IF k \in DOMAIN r THEN r[k] ELSE "?"
DiffKeys(a, b) == {k \in DOMAIN a \cup DOMAIN b : Get(a, k) # Get(b, k)}
(* `got` (a sequence of field maps) against what the file must hold *)
BagBad(want, all, got, what) ==
  LET lost  == {i \in 1..Len(want) : CountF(got, want[i]) < CountF(want, want[i])}
      alien == {j \in 1..Len(got) : CountF(all, got[j]) < CountF(got, got[j])}
      near(i) == CHOOSE j \in alien : \A m \in alien :
                    Cardinality(DiffKeys(want[i], got[j])) <= Cardinality(DiffKeys(want[i], got[m]))
  IN (IF lost # {} /\ alien = {} THEN {what \o "-lost"} ELSE {})
     \cup (IF lost = {} /\ alien # {} THEN {what \o "-invented"} ELSE {})
     \cup (IF lost # {} /\ alien # {}
           THEN {what \o "-changed:" \o k : k \in DiffKeys(want[CHOOSE i \in lost : TRUE], got[near(CHOOSE i \in lost : TRUE)])}
           ELSE {})

(* everything in the file *)
ReadBad(file, got) == BagBad(Field(Live(file), "f"), Field(file, "f"), got, "patch")
Only(r, keys) == [k \in (DOMAIN r \cap ToSet(keys)) |-> r[k]]
ScanBad(file, got, keys) ==
  IF keys = <<>> THEN BagBad(Field(Live(file), "s"), Field(file, "s"), got, "scan")
  ELSE LET cut(s) == [i \in 1..Len(s) |-> Only(s[i].s, keys)]
       IN BagBad(cut(Live(file)), cut(file), [i \in 1..Len(got) |-> Only(got[i], keys)], "scan")

(* a partial read: the samples inside the query, patches without any dropped *)
Samples(r) == [v |-> r.v, id |-> r.id, x |-> r.x, o |-> r.o, oc |-> r.oc, pg |-> r.pg, pa |-> r.pa]
QueryOf(s, q) ==
  LET r == SelectAll(s, q)
  IN Pick(r, FilterIdx([i \in 1..Len(r) |-> r[i].v # <<>> /\ r[i].o # <<>>], 1, Len(r)))
SeqSamples(s) == [i \in 1..Len(s) |-> Samples(s[i])]
QueryBad(file, q, got) ==
  LET want == SeqSamples(QueryOf(Live(file), q))
      all  == SeqSamples(QueryOf(file, q))
      g    == [i \in 1..Len(got) |-> Samples(got[i])]
  IN (IF \E i \in 1..Len(want) : CountF(g, want[i]) < CountF(want, want[i]) THEN {"query-samples-missing"} ELSE {})
     \cup (IF \E i \in 1..Len(g) : CountF(all, g[i]) < CountF(g, g[i]) THEN {"query-samples-wrong"} ELSE {})
     \cup (IF \E i \in 1..Len(got) : got[i].sane = 0 THEN {"query-cells"} ELSE {})
=============================================================================
