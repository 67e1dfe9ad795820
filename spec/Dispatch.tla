------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Which format a file has, and what reading, scanning and writing it      *)
(* therefore means (property C15).                                         *)
(*                                                                         *)
(*   reg   : set of [n, ver, write, blind, kind]: the formats registered   *)
(*           so far (blind ones never recognise a file)                    *)
(*   files : name -> [k, n, ver, ids, bad]                                 *)
(*           k = data (a file of format n version ver), junk, dir (plain   *)
(*           directory), ddir (a directory which is one data set)          *)
(* The answer depends on the content of the file and on what is registered *)
(* NOW: not on the extension, the order of registration, what was looked   *)
(* at before, nor on the spelling of the path.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Some(reg, n, ver) == {g \in reg : g.n = n /\ (ver = "" \/ g.ver = ver)}
Named(reg, n) == {g \in reg : g.n = n}
Reads(reg, r) == r.k \in {"data", "ddir"} /\ \E g \in reg :
                    g.n = r.n /\ g.ver = r.ver /\ g.blind = 0 /\ (g.kind = "directory" <=> r.k = "ddir")
(* the hint (gf, gv) leaves which formats to try *)
HintBad(reg, gf, gv) == \/ gf = "" /\ gv # ""
                        \/ gf # "" /\ Named(reg, gf) = {}
                        \/ gf # "" /\ gv # "" /\ Some(reg, gf, gv) = {}
HintFits(r, gf, gv) == (gf = "" \/ gf = r.n) /\ (gv = "" \/ gv = r.ver)
(* "" or the name of the error *)
Outcome(reg, files, f, gf, gv) ==
  IF f \notin DOMAIN files THEN "FileNotFoundError"
  ELSE IF HintBad(reg, gf, gv) \/ ~Reads(reg, files[f]) \/ ~HintFits(files[f], gf, gv) THEN "UnknownFiberFormatError"
  ELSE ""
(* a plain directory lists the names below it *)
Under(files, parent) == files[parent].sub
IdsOf(reg, files, f) ==
  LET r == files[f] IN
  IF Reads(reg, r) /\ r.bad = 0 THEN r.ids ELSE <<>>
RECURSIVE AllIds(_, _, _)
AllIds(reg, files, fs) ==
  IF fs = <<>> THEN <<>>
  ELSE (IF files[Head(fs)].k = "dir" THEN AllIds(reg, files, Under(files, Head(fs))) ELSE IdsOf(reg, files, Head(fs)))
       \o AllIds(reg, files, Tail(fs))
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
=============================================================================
