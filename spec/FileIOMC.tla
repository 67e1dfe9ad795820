------------------------------ MODULE FileIOMC ------------------------------
(***************************************************************************)
(* The mechanism behind an appendable file: patches live in named groups.   *)
(* Names are derived from a few attributes, so different patches may want   *)
(* the same name; a write takes the first free variant of the name or the   *)
(* group of a patch with the same identity.  An optional index lists the    *)
(* groups.  Refinement of FileIO: reading returns every patch which has not *)
(* been superseded, whatever the order and batching of the writes.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Idents, Names, Vers, MaxWrites, MaxBatch
VARIABLES groups,   \* <<name, variant>> -> [ident, ver]
          hist,     \* everything written, in order: [ident, ver, batch]
          nb,       \* number of writes so far
          index,    \* set of listed groups
          indexed   \* the file has an index
vars == <<groups, hist, nb, index, indexed>>
NameOf(i) == CHOOSE n \in Names : TRUE   \* all patches want the same name (worst case)
Patches == [ident : Idents, ver : Vers]
Keys == DOMAIN groups

RECURSIVE Variant(_, _, _, _)
Variant(g, used, p, k) ==
  LET key == <<NameOf(p.ident), k>> IN
  IF key \in used \/ (key \in DOMAIN g /\ g[key].ident # p.ident) THEN Variant(g, used, p, k + 1) ELSE key
RECURSIVE Save(_, _, _)
Save(g, used, ps) ==
  IF ps = <<>> THEN [g |-> g, used |-> used]
  ELSE LET k == Variant(g, used, Head(ps), 0)
       IN Save([x \in DOMAIN g \cup {k} |-> IF x = k THEN Head(ps) ELSE g[x]], used \cup {k}, Tail(ps))

Batches == UNION {[1..n -> Patches] : n \in 1..MaxBatch}
Init == groups = <<>> /\ hist = <<>> /\ nb = 0 /\ index = {} /\ indexed = FALSE
WriteBatch(ps, ix) ==
  LET r == Save(groups, {}, ps) IN
  /\ nb < MaxWrites /\ nb' = nb + 1
  /\ groups' = r.g
  /\ hist' = hist \o [k \in 1..Len(ps) |-> [ident |-> ps[k].ident, ver |-> ps[k].ver, batch |-> nb + 1]]
  /\ indexed' = (indexed \/ ix)
  /\ index' = IF indexed THEN index \cup r.used ELSE IF ix THEN DOMAIN r.g ELSE {}
Next == \E ps \in Batches, ix \in BOOLEAN : WriteBatch(ps, ix)
Spec == Init /\ [][Next]_vars

Superseded(i) == \E j \in 1..Len(hist) : hist[j].ident = hist[i].ident /\ hist[j].batch > hist[i].batch
CountG(id, v) == Cardinality({k \in Keys : groups[k].ident = id /\ groups[k].ver = v})
CountH(id, v, live) == Cardinality({i \in 1..Len(hist) : hist[i].ident = id /\ hist[i].ver = v /\ (live => ~Superseded(i))})
NothingLost == \A id \in Idents, v \in Vers : CountG(id, v) >= CountH(id, v, TRUE)
NothingInvented == \A id \in Idents, v \in Vers : CountG(id, v) <= CountH(id, v, FALSE)
IndexComplete == indexed => index = Keys
=============================================================================
