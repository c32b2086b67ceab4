-------------------------------- MODULE VcMC --------------------------------
(***************************************************************************)
(* The tables of (Multi-Function) Virtual Channel structures: every        *)
(* selected scheme, entry size and number of resources, with the table at  *)
(* the start, behind the registers, far away or absent, and the readable   *)
(* region ending right behind the table, a byte before, a byte after.      *)
(* One state per structure; a table is there exactly when its place is     *)
(* given, its scheme has one and all of it is readable.                    *)
(* Every structure is printed for replay into the real code.               *)
(***************************************************************************)
EXTENDS Decode, Integers, FiniteSets, Json, IOUtils, TLC

Deep == IOEnv.DEEP = "1"
Emit == IOEnv.EMIT = "1"
Offsets == IF Deep THEN {0, 1, 2, 3, 4, 9, 128, 255} ELSE {0, 1, 2, 4, 200}
Slack == IF Deep THEN {-33, -1, 0, 1, 4} ELSE {-1, 0, 1}
Counts == IF Deep THEN {0, 1, 3, 7} ELSE {0, 2}
(* id; extended VCs; VC table: place, scheme; resource tables: entry size, *)
(* place, scheme; what the region has beyond the end of `about`'s table    *)
Case == [id : {2, 8, 9}, count : Counts, vo : Offsets, vsel : 0..7, size : {0}, po : {0}, psel : {0}, slack : Slack, about : {"vc"}]
   \cup [id : {2, 8}, count : Counts, vo : {0, 2}, vsel : {0}, size : 0..3, po : Offsets, psel : 0..7, slack : Slack, about : {"resource"}]

VatBytes(s) == << 0, 16, 32, 64, 0, 0, 0, 0 >>[s + 1]
PatBits(s) == << 0, 32, 64, 128, 128, 256, 0, 0 >>[s + 1]
PatBytes(s, size) == (PatBits(s) * << 1, 2, 4, 8 >>[size + 1]) \div 8

(* first the scheme, then the rest                                         *)
VARIABLE c
Init == c \in { [scheme |-> s] : s \in 0..7 }
Next == \/ "scheme" \in DOMAIN c /\ c' \in { k \in Case : (IF k.about = "vc" THEN k.vsel ELSE k.psel) = c.scheme }
Spec == Init /\ [][Next]_c

Bulk(n) == [k \in 1..n |-> (7 * k + (k \div 16)) % 256]
Resource(k) == << 63, 128 + k, 2 * k, c.po >> \o << 255, 0, 2 * c.psel + 1, 128 + k >> \o << 0, 0, 3, 0 >>
RECURSIVE Resources(_)
Resources(k) == IF k = 0 THEN << >> ELSE Resources(k - 1) \o Resource(k)
Regs == << c.id, 0, 1, 0 >> \o << c.count, c.size * 4, 0, 0 >> \o << 15, 0, 0, c.vo >> \o << 2 * c.vsel + 1, 0, 1, 0 >> \o Resources(c.count + 1)
End == IF c.about = "vc" THEN 16 * c.vo + VatBytes(c.vsel) ELSE 16 * c.po + PatBytes(c.psel, c.size)
Length == LET n == (IF (c.about = "vc" /\ c.vo = 0) \/ (c.about = "resource" /\ c.po = 0) THEN Len(Regs) + 64 ELSE End) + c.slack
          IN IF n < 16 THEN 16 ELSE n
Bytes == LET n == Length IN SubSeq(Regs \o Bulk(IF n > Len(Regs) THEN n - Len(Regs) ELSE 0), 1, n)

Value(f, path) == LET i == CHOOSE i \in 1..Len(f) : f[i][1] = path IN f[i][2]
Has(f, path) == \E i \in 1..Len(f) : f[i][1] = path
Commas(s) == Cardinality({ i \in 1..Len(s) : SubSeq(s, i, i) = "," })
Entries_(s) == IF s \in {"", "None"} THEN 0 ELSE Commas(s)
Mf == c.id = 8

(* the VC table: in VC read when all of it is there; in MFVC required      *)
VcTable(X, r) ==
  LET fits == 16 * c.vo + VatBytes(c.vsel) <= Len(X)
  IN IF Mf THEN r.ok = (c.vo = 0 \/ (c.vo > 1 /\ fits))
     ELSE r.ok /\ Entries_(Value(r.f, "fn_vat")) = (IF c.vo > 0 /\ fits THEN 2 * VatBytes(c.vsel) ELSE 0)
(* as many resources as promised, unless the region ends before            *)
Amount(X, r) == r.ok =>
  LET n == Value(r.f, "fn_evc.#")
      there == Min(c.count + 1, (Len(X) - 16) \div 12)
  IN n = Str(there) /\ Has(r.f, "fn_evc." \o Str(there - 1) \o ".vc_resource_control.vc_id") = (there > 0)
(* a resource's table                                                      *)
ResTable(X, r) == (r.ok /\ (Len(X) - 16) \div 12 > 0) =>
  LET t == Value(r.f, "fn_evc.0." \o (IF Mf THEN "fat" ELSE "pat"))
      fits == 16 * c.po + PatBytes(c.psel, c.size) <= Len(X)
      there == fits /\ c.po >= (IF Mf THEN 2 ELSE 1)
  IN /\ Entries_(t) = (IF there THEN PatBits(c.psel) ELSE 0)
     /\ Mf => (t = "None") = ~there
Print_(X) == PrintT("REPLAY " \o ToJson([w |-> "ecap", h |-> [i \in 1..64 |-> 0], d |-> << >>, x |-> X, ops |-> << 1, 1 >>]))
Tables == "scheme" \notin DOMAIN c =>
  \E X \in {Bytes} : \E r \in {EcapBody(c.id, X)} : VcTable(X, r) /\ Amount(X, r) /\ ResTable(X, r) /\ (Emit => Print_(X))
=============================================================================
