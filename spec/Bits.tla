-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Registers as PCI defines them: a little-endian array of bytes whose     *)
(* bits are numbered from 0 (bit 8*o is the least significant bit of the   *)
(* byte at offset o).  A configuration-space region is a sequence of bytes;*)
(* offset o is element o+1.                                                *)
(*                                                                         *)
(* Observed and expected values are compared as strings, so that values of *)
(* different shapes compare unequal instead of being a type error, and so  *)
(* that 32- and 64-bit values fit (TLC integers are 31 bit).  A number is  *)
(* written in decimal when it is below 2^31 and as "hex:<digits>" above.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

P2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
         32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304,
         8388608, 16777216, 33554432, 67108864, 134217728, 268435456,
         536870912, 1073741824 >>
Pow2(n) == P2[n + 1]

ByteAt(b, o) == b[o + 1]

(* The w-bit unsigned field whose least significant bit is `bit`; w <= 31. *)
RECURSIVE Bits(_, _, _)
Bits(b, bit, w) ==
  LET i == bit \div 8
      s == bit % 8
  IN IF s + w <= 8
     THEN (b[i + 1] \div P2[s + 1]) % P2[w + 1]
     ELSE (b[i + 1] \div P2[s + 1])
          + P2[9 - s] * Bits(b, (i + 1) * 8, w - (8 - s))

IsSet(b, bit) == (b[(bit \div 8) + 1] \div P2[(bit % 8) + 1]) % 2 = 1

HexDigit == << "0", "1", "2", "3", "4", "5", "6", "7",
               "8", "9", "a", "b", "c", "d", "e", "f" >>

(* Hex digits of a non-empty little-endian sequence of nibbles, most       *)
(* significant first, leading zeros dropped.                               *)
RECURSIVE HexTrim(_)
HexTrim(n) == IF Len(n) > 1 /\ n[Len(n)] = 0
              THEN HexTrim(SubSeq(n, 1, Len(n) - 1)) ELSE n
RECURSIVE HexStr(_)
HexStr(n) == IF Len(n) = 0 THEN ""
             ELSE HexDigit[n[Len(n)] + 1] \o HexStr(SubSeq(n, 1, Len(n) - 1))

(* Canonical string of a number given as little-endian nibbles.            *)
RECURSIVE NibVal(_)
NibVal(n) == IF Len(n) = 0 THEN 0 ELSE n[1] + 16 * NibVal(Tail(n))
NumStr(n) == LET t == HexTrim(n)
             IN IF Len(t) < 8 \/ (Len(t) = 8 /\ t[8] < 8)
                THEN ToString(NibVal(t)) ELSE "hex:" \o HexStr(t)

(* The w-bit field at `bit` as nibbles (any width).                        *)
Nibbles(b, bit, w) ==
  [k \in 1..((w + 3) \div 4) |->
      LET r == w - 4 * (k - 1) IN Bits(b, bit + 4 * (k - 1), IF r < 4 THEN r ELSE 4)]

(* Canonical string of the w-bit unsigned field at `bit` (any width).      *)
U(b, bit, w) == IF w <= 31 THEN ToString(Bits(b, bit, w))
                ELSE NumStr(Nibbles(b, bit, w))

(* Field at `bit`, width w, scaled by 2^(4*z): z zero nibbles are appended.*)
Zeros(z) == [k \in 1..z |-> 0]

BoolStr(p) == IF p THEN "true" ELSE "false"
Bl(b, bit) == BoolStr(IsSet(b, bit))

(* Enumerations: e.v is the sequence of names of encodings 0, 1, 2, ...    *)
(* (empty string: no name), e.o names the variant that carries every other *)
(* encoding verbatim.                                                      *)
EnumStr(e, v) == IF v < Len(e.v) /\ e.v[v + 1] # "" THEN e.v[v + 1]
                 ELSE e.o \o "(" \o ToString(v) \o ")"
En(names, other) == [v |-> names, o |-> other]
New(name) == [v |-> << >>, o |-> name]       \* a tuple struct around the raw value

(***************************************************************************)
(* A register layout is a sequence of fields                               *)
(*     << name, bit offset, width, type >>                                 *)
(* type is "b" (flag), "u" (unsigned number) or an enumeration record.     *)
(* Decoding it at bit offset `base` of b yields a sequence of pairs        *)
(*     << path, value string >>.                                           *)
(***************************************************************************)
B(name, bit) == << name, bit, 1, "b" >>
N(name, bit, w) == << name, bit, w, "u" >>
FieldStr(b, base, f) ==
  IF Len(f) = 4
  THEN IF f[4] = "b" THEN Bl(b, base + f[2]) ELSE U(b, base + f[2], f[3])
  ELSE EnumStr(f[5], Bits(b, base + f[2], f[3]))
E(name, bit, w, enum) == << name, bit, w, "e", enum >>

Fields(b, base, pre, fs) ==
  [i \in 1..Len(fs) |-> << pre \o fs[i][1], FieldStr(b, base, fs[i]) >>]

(* Same, wrapped: pairs under a path prefix plus a tag for the prefix.     *)
Tag(path, name) == << << path, name >> >>
Kv(path, val) == << << path, val >> >>
None(path) == << << path, "None" >> >>
SomeU(path, b, bit, w) == << << path, "Some(" \o U(b, bit, w) \o ")" >> >>

(* Concatenation of a sequence of sequences; of f(1), ..., f(n).           *)
RECURSIVE Cat(_)
Cat(ss) == IF Len(ss) = 0 THEN << >> ELSE Head(ss) \o Cat(Tail(ss))
CatN(n, f(_)) == Cat([k \in 1..n |-> f(k)])

(* bytes o .. o+n-1 of b as indexed list elements under prefix pre         *)
ByteList(pre, b, o, n) ==
  << << pre \o "#", ToString(n) >> >>
  \o [k \in 1..n |-> << pre \o ToString(k - 1), ToString(b[o + k]) >>]

Str(n) == ToString(n)

Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
From0(b, o) == SubSeq(b, o + 1, Len(b))     \* the region from offset o on

(* Decoding outcome.                                                       *)
Ok(fields) == [ok |-> TRUE, f |-> TLCEval(fields), e |-> ""]
Err(text)  == [ok |-> FALSE, f |-> << >>, e |-> text]
=============================================================================
