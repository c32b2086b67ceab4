-------------------------------- MODULE FormMC --------------------------------
(***************************************************************************)
(* Forms and lengths: a structure may take several forms (MSI with 32-bit  *)
(* or 64-bit addresses, a PCI Express function of sixteen types and        *)
(* versions, a table with 0..63 entries ...), and how much of it must be   *)
(* readable depends on the form.  One state per kind, form and number of   *)
(* readable bytes.  What the forms need is written here as a table, apart  *)
(* from the decoders of Decode.tla; the two must agree:                    *)
(*   Decodable  reported as a structure exactly when as many bytes are     *)
(*              readable as its form needs, an error otherwise;            *)
(*   Parts      what is optional is there exactly when it is readable and  *)
(*              the form has it, and there are as many elements as said;   *)
(*   Settled    more readable bytes do not change which error is reported  *)
(*              into another while fewer than the least are readable, and  *)
(*              never turn a structure back into an error.                 *)
(* Every structure is printed for replay into the real code.               *)
(***************************************************************************)
EXTENDS Decode, Integers, FiniteSets, Json, IOUtils, TLC

Deep == IOEnv.DEEP = "1"
Emit == IOEnv.EMIT = "1"
What == IOEnv.WHAT
Never == 9999

(* n: the structure's readable bytes, its header included                  *)
Around(need, s) == { IF need = Never THEN 64 + k ELSE need + k : k \in s }
Steps == IF Deep THEN -9..9 ELSE {-4, -1, 0, 1, 4}

(*------------------------------ capabilities -----------------------------*)
CapGroup == [basic |-> {1, 2, 3, 4, 10, 13, 18, 19}, msi |-> {5, 17}, pcie |-> {16}, ht |-> {8},
             bridge |-> {7, 107, 21}, vendor |-> {9, 109}]         \* 107: PCI-X of a bridge, 109: of a Virtio device
EcapGroup == [vendor |-> {11, 35, 135}, error |-> {1, 13, 29},      \* 135: of CXL
              simple |-> {3, 4, 6, 7, 10, 12, 14, 15, 19, 24, 27, 28, 30, 31, 32, 33, 34},
              resources |-> {16, 18, 21, 36}, lists |-> {5, 22, 23, 25, 26}]
Kinds(groups) == UNION { groups[g] : g \in { g \in DOMAIN groups : What \in {g, "all"} } }
CapIds == Kinds(CapGroup)
EcapIds == Kinds(EcapGroup)
Forms(w, id) ==
  IF w = "cap" THEN
    CASE id = 5 -> 0..31                  \* 64-bit, per vector masking, messages capable
      [] id \in {7, 107} -> 0..3          \* ECC registers' version
      [] id = 8 -> 0..31                  \* type
      [] id = 9 -> (IF Deep THEN 0..40 ELSE 0..12) \cup {100, 192}           \* length
      [] id = 109 -> { 5 * l + t : l \in {0, 2, 3, 15, 16, 17, 19, 20, 21, 24}, t \in 0..4 }    \* length, what it is about
      [] id = 16 -> IF Deep THEN 0..255 ELSE { 16 * v + t : v \in {0, 1, 2, 15}, t \in 0..15 }   \* version, type
      [] id = 2 -> {0, 1}                 \* isochronous transfers
      [] OTHER -> {0}
  ELSE
    CASE id = 1 -> {0, 1}                 \* TLP prefix log
      [] id = 13 -> { 2 * v + p : v \in {0, 1, 8, 31, 32, 33, 64, 255}, p \in {0, 1} }     \* vector size, egress control
      [] id = 29 -> 0..31                 \* RP extensions, log size
      [] id = 5 -> (IF Deep THEN 0..20 ELSE 0..4) \cup {255}                 \* link entries
      [] id \in {21, 36} -> 0..7          \* entries
      [] id = 22 -> 0..31                 \* the last substate
      [] id = 23 -> { 4 * s + l : s \in {0, 1, 2, 7, 62, 63, 64, 2047}, l \in 0..3 }      \* table size, place
      [] id = 26 -> IF Deep THEN 0..63 ELSE {0, 1, 2, 3, 31, 63}             \* protocols
      [] id = 11 -> {0, 4, 7, 8, 9, 11, 24, 64, 300, 4095}                   \* length
      [] id \in {35, 135} -> {0, 4, 9, 10, 11, 24, 55, 56, 57, 60, 300}      \* length
      [] OTHER -> {0}

HtNeeds(t) == CASE t \in 0..3 -> 28 [] t \in 4..7 -> 24 [] t = 21 -> 12 [] OTHER -> 4
Need(w, id, m) ==
  IF w = "cap" THEN
    CASE id \in {1, 3, 13, 18} -> 8
      [] id = 2 -> 12
      [] id \in {4, 10} -> 4
      [] id = 19 -> 6
      [] id = 5 -> 12 + (IF m % 2 = 1 THEN 4 ELSE 0) + (IF (m \div 2) % 2 = 1 THEN 8 ELSE 0)
      [] id = 17 -> 12
      [] id = 7 -> IF m \in {1, 2} THEN 24 ELSE 8
      [] id = 107 -> IF m \in {1, 2} THEN 32 ELSE 16
      [] id = 21 -> 36
      [] id = 8 -> HtNeeds(m)
      [] id = 9 -> IF m < 3 THEN Never ELSE m
      [] id = 109 -> IF m \div 5 < 16 THEN Never ELSE m \div 5
      [] id = 16 -> IF m % 16 \in {4, 10} THEN 36 ELSE 28
  ELSE
    CASE id = 1 -> IF m = 1 THEN 72 ELSE 44
      [] id = 13 -> 8
      [] id = 29 -> LET size == m \div 2 IN
                    IF m % 2 = 0 THEN 12 ELSE IF size < 5 THEN 48 ELSE 52 + 4 * Min(size - 5, 4)
      [] id = 5 -> IF m = 0 THEN Never ELSE 32
      [] id \in {21, 36} -> IF m \in 1..6 THEN 4 + 8 * m ELSE Never
      [] id = 22 -> 17 + m
      [] id = 26 -> 16 + 4 * m
      [] id = 11 -> 8
      [] id = 35 -> IF m < 10 THEN Never ELSE m
      [] id = 135 -> IF m < 56 THEN Never ELSE m
      [] id \in {7, 12, 14, 15, 24, 27, 28} -> 8
      [] id \in {3, 6, 23, 25, 31, 34} -> 12
      [] id \in {4, 19, 30, 33} -> 16
      [] id = 10 -> 20
      [] id = 32 -> 28
      [] id = 18 -> 40
      [] id = 16 -> 64

(* the lengths at which something optional begins                          *)
Optional(w, id, m) ==
  IF w = "cap" THEN CASE id = 2 -> {16, 20, 22, 24, 28, 32, 34} [] id = 16 -> {28, 36, 44, 52, 60} [] id = 109 -> {m \div 5} [] OTHER -> {}
  ELSE CASE id = 1 -> {56, 60, 72, 76} [] id = 18 -> {48} [] id = 13 -> {8 + 4 * k : k \in 0..8}
         [] id = 5 -> { 16 + 16 * k : k \in 1..4 } [] id = 11 -> {m} [] id = 23 -> {14 + 2 * (m \div 4)}
         [] id = 25 -> {16, 28, 44, 76, 140} [] OTHER -> {}
Room(w) == IF w = "cap" THEN 192 ELSE 700
Lengths(w, id, m) == { n \in Around(Need(w, id, m), Steps) \cup UNION { Around(o, IF Deep THEN -2..2 ELSE {-1, 0}) : o \in Optional(w, id, m) } : n >= (IF w = "cap" THEN 2 ELSE 4) /\ n <= Room(w) }

Places == { << "cap", id >> : id \in CapIds } \cup { << "ecap", id >> : id \in EcapIds }
VARIABLES k, c
Init == k \in Places /\ c = << >>
Next == c = << >> /\ \E m \in Forms(k[1], k[2]) : \E n \in Lengths(k[1], k[2], m) : c' = << m, n >> /\ UNCHANGED k
Spec == Init /\ [][Next]_<< k, c >>

(*--------------------------- bytes of a structure ------------------------*)
(* all readable bytes hold something, except where the form is given       *)
Bulk(n) == [i \in 1..n |-> (37 * i + 5 * (i \div 8) + 129) % 256]
Id == k[2] % 100
M == c[1]
N_ == c[2]
Put(s, at, v) == IF at < Len(s) THEN [s EXCEPT ![at + 1] = v] ELSE s
Low(s, at, bits, v) == IF at < Len(s) THEN Put(s, at, s[at + 1] - (s[at + 1] % bits) + v) ELSE s        \* replaces the low bits
Word(s, at, v) == Put(Put(s, at, v % 256), at + 1, v \div 256)
Formed(s) ==
  IF k[1] = "cap" THEN
    CASE k[2] = 5 -> Put(Low(Put(s, 2, 2 * (M \div 4) + 16 * (M % 8) - 16 * (M % 2) + 128 * (M % 2)), 3, 2, (M \div 2) % 2), 4, 84)
      [] k[2] \in {7, 107} -> Put(s, 3, 16 * M + 5)
      [] k[2] = 8 -> Put(s, 3, 8 * M + 5)
      [] k[2] = 9 -> Put(s, 2, M)
      [] k[2] = 109 -> Put(Put(s, 2, M \div 5), 3, M % 5)
      [] k[2] = 16 -> Put(s, 2, 16 * (M % 16) + (M \div 16))
      [] k[2] = 2 -> Low(s, 6, 4, 2 * M + 1)
      [] OTHER -> s
  ELSE
    CASE k[2] = 1 -> Put(s, 25, 8 * M + 64 + 5)
      [] k[2] = 13 -> Put(Put(s, 5, M \div 2), 4, 32 * (M % 2) + 21)
      [] k[2] = 29 -> Put(Put(s, 4, 32 * (M % 2) + 128 + 9), 5, 16 + M \div 2)
      [] k[2] = 5 -> Put(s, 5, M)
      [] k[2] \in {21, 36} -> Put(s, 8, 32 * M + 2)
      [] k[2] = 22 -> Put(s, 4, 128 + M)
      [] k[2] = 23 -> Word(Put(s, 5, 2 * (M % 4) + 1), 6, M \div 4)
      [] k[2] = 26 -> Put(s, 4, 64 + M)
      [] k[2] = 11 -> Put(Put(s, 6, 16 * (M % 16) + 3), 7, M \div 16)
      [] k[2] = 35 -> Word(Put(Put(Put(s, 6, 16 * (M % 16) + 3), 7, M \div 16), 8, 0), 4, 32902)
      [] k[2] = 135 -> Put(Put(Word(Put(Put(s, 6, 16 * (M % 16) + 3), 7, M \div 16), 4, 7832), 8, 0), 9, 0)
      [] OTHER -> s
Bytes(n) == LET b == Formed(Bulk(n)) IN IF k[1] = "cap" THEN Put(Put(b, 0, Id), 1, 0) ELSE Put(Put(Put(Put(b, 0, Id), 1, 0), 2, 1), 3, 0)
Header == LET h == [i \in 1..64 |-> IF i = 53 THEN 64 ELSE IF i = 15 /\ k[2] = 107 THEN 1 ELSE 0]
          IN IF k[2] = 109 THEN [h EXCEPT ![1] = 244, ![2] = 26, ![3] = 0, ![4] = 16] ELSE h
Report(n) == IF k[1] = "cap" THEN CapBody(Id, From0(Bytes(n), 2), Header, FALSE) ELSE EcapBody(Id, Bytes(n))

Decodable(r) == r.ok = (N_ >= Need(k[1], k[2], M))

(*-------------------------------- parts ----------------------------------*)
Value(f, path) == LET i == CHOOSE i \in 1..Len(f) : f[i][1] = path IN f[i][2]
Has(f, path) == \E i \in 1..Len(f) : f[i][1] = path
There(f, path) == Has(f, path) /\ Value(f, path) # "None"
Counted(f, path, n) == Has(f, path) /\ Value(f, path) = Str(n)
Elements(f, pre, n) == IF n = 0 THEN ~(\E i \in 1..Len(f) : f[i][1] = pre \o "0")
                       ELSE Has(f, pre \o Str(n - 1)) /\ ~Has(f, pre \o Str(n))
V2 == M \div 16 > 1
T == M % 16
Known == {0, 1, 4, 5, 6, 7, 8, 9, 10}
Link == T \notin {9, 10}                         \* of an unknown type all registers are reported
Slot == T \in {4, 6, 8} \/ T \notin Known
Parts(r) == r.ok =>
  IF k[1] = "cap" THEN
    CASE k[2] = 2 -> /\ There(r.f, "isochronous_status") = (M = 1 /\ N_ >= 16)
                     /\ There(r.f, "control") = (N_ >= 20)
                     /\ There(r.f, "aperture_size") = (N_ >= 22)
                     /\ There(r.f, "enabled_aperture_page_size") = (N_ >= 24)
                     /\ There(r.f, "gart_pointer") = (N_ >= 28)
                     /\ There(r.f, "isochronous_command") = (M = 1 /\ N_ >= 34)
      [] k[2] = 5 -> There(r.f, "mask_bits") = ((M \div 2) % 2 = 1) /\ There(r.f, "pending_bits") = ((M \div 2) % 2 = 1)
                     /\ Value(r.f, "fn_capable_vectors") = Str(2 ^ (M \div 4))
      [] k[2] = 16 -> /\ There(r.f, "device_2") = (V2 /\ N_ >= 44)
                      /\ There(r.f, "device_type.link_2") = (V2 /\ Link /\ N_ >= 52)
                      /\ There(r.f, "device_type.slot_2") = (V2 /\ Slot /\ N_ >= 60)
                      /\ Has(r.f, "device_type.link.capabilities.maximum_link_width") = Link
                      /\ (\E i \in 1..Len(r.f) : r.f[i][1] = "device_type.slot.capabilities.attention_button_present") = Slot
                      /\ Value(r.f, "fn_is_endpoint") = (IF T \in {0, 1, 9} THEN "true" ELSE "false")
                      /\ Value(r.f, "fn_is_root") = (IF T \in {4, 10} THEN "true" ELSE "false")
      [] k[2] = 9 -> Elements(r.f, "", M - 3) \/ Counted(r.f, "#", M - 3)
      [] k[2] = 109 -> (M % 5 = 2) => There(r.f, "multiplier") = (M \div 5 >= 20)
      [] OTHER -> TRUE
  ELSE
    CASE k[2] = 1 -> /\ There(r.f, "tlp_prefix_log") = (M = 1)
                     /\ \A p \in {"root_error_command", "root_error_status", "error_source_identification"} : There(r.f, p) = (N_ >= 56)
      [] k[2] = 29 -> /\ There(r.f, "rp_extensions") = (M % 2 = 1)
                      /\ M % 2 = 1 => /\ There(r.f, "rp_extensions.rp_pio_impspec_log") = (M \div 2 >= 5)
                                      /\ There(r.f, "rp_extensions.rp_pio_tlp_prefix_log") = (M \div 2 > 5)
      [] k[2] = 13 -> LET v == M \div 2
                          bits == IF v = 0 THEN 256 * (M % 2) ELSE v
                      IN Len(Value(r.f, "fn_ecv")) = (IF N_ >= 8 + 4 * ((bits + 31) \div 32) THEN bits ELSE 0)
      [] k[2] = 5 -> LET n == Min(M, (N_ - 16) \div 16) IN
                     /\ Counted(r.f, "fn_le.#", n)
                     /\ Value(r.f, "link_entries.state") = (IF N_ >= 16 + 16 * M THEN "Valid" ELSE IF N_ % 16 = 0 THEN "Incomplete" ELSE "Invalid")
                     /\ \A j \in 0..n - 1 : Has(r.f, "fn_le." \o Str(j) \o ".link_description.link_valid")
                     /\ ~Has(r.f, "fn_le." \o Str(n) \o ".link_description.link_valid")
      [] k[2] \in {21, 36} -> Counted(r.f, "fn_entries.#", M)
      [] k[2] = 26 -> Counted(r.f, "fn_array.#", M)
      [] k[2] = 25 -> Counted(r.f, "fn_lanes.#", Min(63, (N_ - 12) \div 2))
      [] k[2] = 18 -> There(r.f, "mc_overlay_bar") = (N_ >= 48)
      [] k[2] = 11 -> IF M < 8 THEN Value(r.f, "registers") = "InvalidLength(" \o Str(M) \o ")"
                      ELSE Value(r.f, "registers") = (IF N_ >= M THEN "Valid" ELSE "Incomplete")
      [] k[2] = 23 -> LET t == Value(r.f, "tph_requester_capability.st_table")  s == M \div 4 IN
                      t = (CASE M % 4 = 0 -> "NotPresent" [] M % 4 = 3 -> "Reserved" [] M % 4 = 2 -> "MsiXTable"
                             [] OTHER -> IF s <= 63 /\ N_ >= 14 + 2 * s THEN "Valid" ELSE "Invalid")
      [] OTHER -> TRUE

(* one byte less: an error stays an error, and a structure that is already *)
(* one is one with the byte, too                                           *)
Settled(r) == N_ > (IF k[1] = "cap" THEN 2 ELSE 4) => \E s \in {Report(N_ - 1)} : s.ok => r.ok

Print_ == PrintT("REPLAY " \o ToJson([w |-> k[1], h |-> Header,
            d |-> IF k[1] = "cap" THEN Bytes(N_) ELSE << >>, x |-> IF k[1] = "cap" THEN << >> ELSE Bytes(N_), ops |-> << 1, 1 >>]))
Right == c # << >> => \E r \in {Report(N_)} : Decodable(r) /\ Parts(r) /\ Settled(r) /\ (Emit => Print_)
=============================================================================
