------------------------------ MODULE CapsMisc ------------------------------
(***************************************************************************)
(* Capabilities 09h Vendor Specific, 0Ah Debug Port, 0Dh Bridge Subsystem  *)
(* ID, 11h MSI-X, 12h SATA, 13h Advanced Features, 14h Enhanced Allocation.*)
(* b: bytes after the two-byte capability header.                          *)
(***************************************************************************)
EXTENDS CapsBasic

(*-------------------------- 09h Vendor Specific ---------------------------*)
(* The third byte of the structure is its total length l; the payload is   *)
(* structure bytes 3..l-1.                                                 *)
IsVirtio(vid, did) == vid = 6900 /\ did >= 4096 /\ did <= 4223   \* 1AF4:1000..107F
VirtioTag == <<"CommonCfg","Notify","Isr","DeviceCfg">>
Virtio(p) ==
  IF Len(p) < 13 THEN Err("Virtio size shold be > 12")
  ELSE LET t == p[1]
       IN Ok(Tag("$", "VendorSpecific:Virtio:" \o (IF t >= 1 /\ t <= 4 THEN VirtioTag[t] ELSE "Unknown"))
          \o Fields(p,0,"", << N("bar",8,8), N("offset",40,32), N("size",72,32) >>)
          \o (IF t # 2 THEN << >>
              ELSE IF Len(p) >= 17 THEN SomeU("multiplier",p,104,32) ELSE None("multiplier")))
VendorSpecific(b, vid, did) ==
  IF Len(b) = 0 THEN Err("length byte is unreadable")
  ELSE IF b[1] < 2 THEN Err("length should be > 2, not " \o Str(b[1]))
  ELSE IF b[1] = 2 \/ Len(b) < b[1] - 2 THEN Err("unable to get " \o Str(b[1]-2) \o " bytes data")
  ELSE LET p == SubSeq(b, 2, b[1]-2)
       IN IF IsVirtio(vid, did) THEN Virtio(p)
          ELSE Ok(Tag("$","VendorSpecific:Unspecified") \o ByteList("",p,0,Len(p)))

(*---------------------------- 0Ah Debug Port ------------------------------*)
DebugPort(b) == IF Len(b) < 2 THEN DataErr("Debug port", 2)
  ELSE Ok(Fields(b,0,"", << N("offset",0,13), N("bar_number",13,3) >>))

(*---------------------- 0Dh Bridge Subsystem Vendor ID --------------------*)
BridgeSsid(b) == IF Len(b) < 6 THEN DataErr("Bridge Subsystem Vendor ID", 6)
  ELSE Ok(Fields(b,0,"", << N("reserved",0,16), N("subsystem_vendor_id",16,16), N("subsystem_id",32,16) >>))

(*------------------------------- 11h MSI-X --------------------------------*)
BirE == En(<<"Bar10h","Bar14h","Bar18h","Bar1Ch","Bar20h","Bar24h">>, "Reserved")
OffsetHi29(b, bit) == NumStr(<<8*Bits(b,bit+3,1)>> \o Nibbles(b,bit+4,28))   \* low 3 bits read as 0
MsiX(b) == IF Len(b) < 10 THEN DataErr("MSI-X", 10)
  ELSE Ok(Fields(b,0,"message_control.", << N("table_size",0,11), B("function_mask",14), B("msi_x_enable",15) >>)
       \o Fields(b,0,"", << E("table.bir",16,3,BirE), E("pending_bit_array.bir",48,3,BirE) >>)
       \o Kv("table.offset",OffsetHi29(b,16)) \o Kv("pending_bit_array.offset",OffsetHi29(b,48)))

(*------------------------------- 12h SATA ---------------------------------*)
BarLocE == En(<<"","","","","Bar0","Bar1","Bar2","Bar3","Bar4","Bar5","","","","","",
                "SataCapability1">>, "Reserved")
Sata(b) == IF Len(b) < 6 THEN DataErr("Serial ATA", 6)
  ELSE Ok(Fields(b,0,"", << N("revision.minor",0,4), N("revision.major",4,4),
            E("bar_location",16,4,BarLocE), E("bar_offset",20,20,New("BarOffset")) >>)
          \o Kv("fn_bar_offset", Str(4*Bits(b,20,20))))

(*-------------------------- 13h Advanced Features -------------------------*)
AdvFeatures(b) == IF Len(b) < 4 THEN DataErr("Advanced Features", 4)
  ELSE Ok(Fields(b,0,"", << N("length",0,8), B("capabilities.transactions_pending",8),
            B("capabilities.function_level_reset",9), B("control.initiate_flr",16),
            B("status.transactions_pending",24) >>))

(*------------------------- 14h Enhanced Allocation ------------------------*)
BeiE == En(<<"Location10h","Location14h","Location18h","Location1Ch","Location20h","Location24h",
  "BehindType1Function","EquivalentNotIndicated","ExpansionRomBaseAddress","VfBar0","VfBar1",
  "VfBar2","VfBar3","VfBar4","VfBar5","Reserved">>, "?")
ResName(v) == CASE v = 253 -> "UnavailableMemorySpace" [] v = 254 -> "UnavailableIoSpace"
  [] v = 255 -> "Unavailable"
  [] OTHER -> EnumStr(En(<<"MemorySpaceNonPrefetchable","MemorySpacePrefetchable","IoSpace",
      "PfForVfMemorySpacePrefetchable","PfForVfMemorySpaceNonPrefetchable",
      "Type1ForAbbMemoryNonPrefetchable","Type1ForAbbMemoryPrefetchable","Type1ForAbbIoSpace">>,
      "Reserved"), v)
EaNum(nibs, wide) == (IF wide THEN "U64(" ELSE "U32(") \o NumStr(nibs) \o ")"

(* One entry at byte o.  RealSize: the next entry starts where this one's  *)
(* data ends (build option); otherwise the entry's own size field says so. *)
EaEntry(b, o, realSize) ==
  LET n == Len(b)
      b64 == n >= o+12 /\ IsSet(b,8*(o+4)+1)
      m64 == n >= o+12 /\ IsSet(b,8*(o+8)+1)
      size == 12 + (IF b64 THEN 4 ELSE 0) + (IF m64 THEN 4 ELSE 0)
      next == IF realSize THEN o + size ELSE o + 4*(Bits(b,8*o,3)+1)
  IN IF n < o+12 \/ n < o+size \/ n < next THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, next |-> next,
       f |-> << <<"entry_size",U(b,8*o,3)>>,
          <<"bar_equivalent_indicator",EnumStr(BeiE,Bits(b,8*o+4,4))>>,
          <<"primary_properties",ResName(Bits(b,8*o+8,8))>>,
          <<"secondary_properties",ResName(Bits(b,8*o+16,8))>>,
          <<"writable",Bl(b,8*o+30)>>, <<"enable",Bl(b,8*o+31)>>,
          <<"base", EaNum(<<4*Bits(b,8*(o+4)+2,2)>> \o Nibbles(b,8*(o+4)+4,28)
              \o (IF b64 THEN Nibbles(b,8*(o+12),32) ELSE << >>), b64)>>,
          <<"max_offset", EaNum(<<4*Bits(b,8*(o+8)+2,2)+3>> \o Nibbles(b,8*(o+8)+4,28)
              \o (IF m64 THEN Nibbles(b,8*(o+12+(IF b64 THEN 4 ELSE 0)),32) ELSE << >>), m64)>> >>]
RECURSIVE EaEntries(_,_,_,_,_)
EaEntries(b, o, left, k, rs) ==
  IF left = 0 THEN Kv("entries.#", Str(k))
  ELSE LET e == EaEntry(b, o, rs)
       IN IF ~e.ok THEN Kv("entries.#", Str(k))
          ELSE [i \in 1..Len(e.f) |-> << "entries." \o Str(k) \o "." \o e.f[i][1], e.f[i][2] >>]
               \o EaEntries(b, e.next, left-1, k+1, rs)
EnhancedAllocation(b, bridge, rs) ==
  IF Len(b) < 2 THEN Err("number of entries is unreadable")
  ELSE IF bridge /\ Len(b) < 6 THEN Err("second DW for Type 1 is unreadable")
  ELSE Ok(Kv("num_entries",U(b,0,6))
     \o (IF bridge THEN Tag("type_1_second_dw","Some:Type1SecondDw")
           \o Fields(b,16,"type_1_second_dw.", << N("fixed_secondary_bus_number",0,8),
                N("fixed_subordinate_bus_number",8,8) >>)
         ELSE None("type_1_second_dw"))
     \o EaEntries(b, IF bridge THEN 6 ELSE 2, Bits(b,0,6), 0, rs))
=============================================================================
