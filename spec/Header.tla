------------------------------- MODULE Header -------------------------------
(***************************************************************************)
(* The predefined header region (bytes 00h..3Fh): common part, the three   *)
(* defined layouts, base address registers and bridge windows.             *)
(* Paths name the public structure a caller sees.                          *)
(***************************************************************************)
EXTENDS Bits

CommandReg == << B("io_space",0), B("memory_space",1), B("bus_master",2),
  B("special_cycles",3), B("memory_write_and_invalidate_enable",4),
  B("vga_palette_snoop",5), B("parity_error_response",6), B("stepping",7),
  B("serr_enable",8), B("fast_back_to_back_enable",9), B("interrupt_disable",10),
  N("reserved",11,5) >>

Devsel == En(<<"Fast","Medium","Slow","Undefined">>, "?")
StatusReg == << N("reserved",0,3), B("interrupt_status",3), B("capabilities_list",4),
  B("is_66mhz_capable",5), B("user_definable_features",6),
  B("fast_back_to_back_capable",7), B("master_data_parity_error",8),
  E("devsel_timing",9,2,Devsel), B("signaled_target_abort",11),
  B("received_target_abort",12), B("received_master_abort",13),
  B("system_error",14), B("detected_parity_error",15) >>

BridgeControlReg == << B("parity_error_response_enable",0), B("serr_enable",1),
  B("isa_enable",2), B("vga_enable",3), B("vga_16_enable",4),
  B("master_abort_mode",5), B("secondary_bus_reset",6),
  B("fast_back_to_back_enable",7), B("primary_discard_timer",8),
  B("secondary_discard_timer",9), B("discard_timer_status",10),
  B("discard_timer_serr_enable",11) >>

CardbusControlReg == << B("parity_error_response_enable",0), B("serr_enable",1),
  B("isa_enable",2), B("vga_enable",3), B("master_abort_mode",5),
  B("cardbus_reset",6), B("ireq_int_enable",7), B("memory_0_prefetch_enable",8),
  B("memory_1_prefetch_enable",9), B("write_posting_enable",10) >>

BistReg == << N("completion_code",0,4), B("is_running",6), B("is_capable",7) >>
PinE == En(<<"Unused","IntA","IntB","IntC","IntD">>, "Reserved")

(* Expansion ROM base address register at byte o: bits 31..11 address.     *)
RomAt(b, o, pre) ==
  << << pre \o "is_enabled", Bl(b, 8*o) >>,
     << pre \o "reserved", U(b, 8*o+1, 10) >>,
     << pre \o "address", NumStr(<<0,0, 8*Bits(b,8*o+11,1)>> \o Nibbles(b,8*o+12,20)) >> >>

(***************************************************************************)
(* Base address registers: an iterator over n dwords at byte offset o.     *)
(* State: the index r of the next register.  A step either ends the        *)
(* iteration or yields one region; an all-zero register is skipped; a      *)
(* 64-bit region consumes two registers.                                   *)
(***************************************************************************)
BarZero(b, o, r) == \A k \in 0..3 : b[o + 4*r + k + 1] = 0
MaskLow4(b, bit) == NumStr(<<0>> \o Nibbles(b, bit+4, 28))
MaskLow2(b, bit) == NumStr(<<4*Bits(b,bit+2,2)>> \o Nibbles(b, bit+4, 28))

BarStep(b, o, n, r) ==      \* r < n, register r not all zero
  LET bit == 8*(o + 4*r)
      t == Bits(b, bit+1, 2)
      pf == << <<"prefetchable", Bl(b, bit+3)>> >>
  IN CASE IsSet(b, bit) ->
            [r |-> r+1, tag |-> "IoSpace", f |-> << <<"base_address", MaskLow2(b,bit)>> >>]
       [] ~IsSet(b,bit) /\ t = 0 ->
            [r |-> r+1, tag |-> "MemorySpace32", f |-> pf \o << <<"base_address", MaskLow4(b,bit)>> >>]
       [] ~IsSet(b,bit) /\ t = 1 ->
            [r |-> r+1, tag |-> "MemorySpaceBelow1M", f |-> pf \o << <<"base_address", MaskLow4(b,bit)>> >>]
       [] ~IsSet(b,bit) /\ t = 3 ->
            [r |-> r+1, tag |-> "MemorySpaceReserved", f |-> pf \o << <<"base_address", MaskLow4(b,bit)>> >>]
       [] ~IsSet(b,bit) /\ t = 2 /\ r + 1 < n ->
            [r |-> r+2, tag |-> "MemorySpace64",
             f |-> pf \o << <<"base_address", NumStr(<<0>> \o Nibbles(b, bit+4, 28+32))>> >>]
       [] OTHER -> [r |-> r+1, tag |-> "MemorySpace64Broken", f |-> pf]

RECURSIVE BarList(_,_,_,_,_)
BarList(b, o, n, r, k) ==    \* pairs for the regions from register r on; k yielded so far
  IF r >= n THEN Kv("bars.#", Str(k))
  ELSE IF BarZero(b, o, r) THEN BarList(b, o, n, r+1, k)
  ELSE LET s == BarStep(b, o, n, r)
           p == "bars." \o Str(k)
       IN << << p \o ".region", Str(r) >>, << p \o ".base_address_type", s.tag >> >>
          \o [i \in 1..Len(s.f) |-> << p \o ".base_address_type." \o s.f[i][1], s.f[i][2] >>]
          \o BarList(b, o, n, s.r, k+1)

(* The same regions as separate elements.                                  *)
RECURSIVE BarElemsFrom(_,_,_)
BarElemsFrom(b, n, r) ==
  IF r >= n THEN << >>
  ELSE IF BarZero(b, 0, r) THEN BarElemsFrom(b, n, r+1)
  ELSE LET s == BarStep(b, 0, n, r)
       IN << << << "region", Str(r) >>, << "base_address_type", s.tag >> >>
             \o [i \in 1..Len(s.f) |-> << "base_address_type." \o s.f[i][1], s.f[i][2] >>] >>
          \o BarElemsFrom(b, n, s.r)
BarElems(b, n) == BarElemsFrom(b, n, 0)

BarOrig(b, o, n) == [i \in 1..n |-> << "orig." \o Str(i-1), U(b, 8*(o+4*(i-1)), 32) >>]

(* Collecting the regions back into registers restores every register,     *)
(* but for the reserved bit 1 of an I/O register and the address of a      *)
(* 64-bit region whose second register does not exist.                     *)
RECURSIVE BarBack(_,_,_,_)
BarBack(b, o, n, r) ==
  LET bit == 8*(o + 4*r)
      p == "enc." \o Str(r)
  IN IF r >= n THEN << >>
     ELSE IF BarZero(b, o, r) THEN Kv(p, "0") \o BarBack(b, o, n, r+1)
     ELSE LET s == BarStep(b, o, n, r)
          IN (CASE s.tag = "IoSpace" -> Kv(p, NumStr(<<4*Bits(b,bit+2,2)+1>> \o Nibbles(b,bit+4,28)))
                [] s.tag = "MemorySpace64Broken" -> Kv(p, Str(4 + 8*Bits(b,bit+3,1)))
                [] s.tag = "MemorySpace64" -> Kv(p, U(b,bit,32)) \o Kv("enc." \o Str(r+1), U(b,bit+32,32))
                [] OTHER -> Kv(p, U(b,bit,32)))
             \o BarBack(b, o, n, s.r)
Bars(b, o, n) == BarList(b, o, n, 0, 0) \o BarOrig(b, o, n) \o BarBack(b, o, n, 0)

(***************************************************************************)
(* Bridge windows.                                                         *)
(***************************************************************************)
IoWindow(b, p) ==
  LET bc == Bits(b, 8*28, 4)   lc == Bits(b, 8*29, 4)
      ba == Bits(b, 8*28+4, 4) la == Bits(b, 8*29+4, 4)
      raw == << << p \o ".base", U(b,8*28,8) >>, << p \o ".limit", U(b,8*29,8) >> >>
  IN CASE bc = 0 /\ lc = 0 /\ ba = 0 /\ la = 0 -> Tag(p, "NotImplemented")
       [] bc = 0 /\ lc = 0 /\ ~(ba = 0 /\ la = 0) -> Tag(p, "IoAddr16")
            \o << << p \o ".base", Str(4096*ba) >>, << p \o ".limit", Str(4096*la) >> >>
       [] bc = 1 /\ lc = 1 -> Tag(p, "IoAddr32")
            \o << << p \o ".base", NumStr(<<0,0,0,ba>> \o Nibbles(b,8*48,16)) >>,
                  << p \o ".limit", NumStr(<<0,0,0,la>> \o Nibbles(b,8*50,16)) >> >>
       [] bc # lc -> Tag(p, "Malformed") \o raw
       [] OTHER -> Tag(p, "Reserved") \o raw

PrefWindow(b, p) ==
  LET bc == Bits(b, 8*36, 4)    lc == Bits(b, 8*38, 4)
      ba == Bits(b, 8*36+4, 12) la == Bits(b, 8*38+4, 12)
      raw == << << p \o ".base", U(b,8*36,16) >>, << p \o ".limit", U(b,8*38,16) >> >>
      lo(o) == <<0,0,0,0,0>> \o Nibbles(b, 8*o+4, 12)
  IN CASE bc = 0 /\ lc = 0 /\ ba = 0 /\ la = 0 -> Tag(p, "NotImplemented")
       [] bc = 0 /\ lc = 0 /\ ~(ba = 0 /\ la = 0) -> Tag(p, "MemAddr32")
            \o << << p \o ".base", NumStr(lo(36)) >>, << p \o ".limit", NumStr(lo(38)) >> >>
       [] bc = 1 /\ lc = 1 -> Tag(p, "MemAddr64")
            \o << << p \o ".base", NumStr(lo(36) \o Nibbles(b,8*40,32)) >>,
                  << p \o ".limit", NumStr(lo(38) \o Nibbles(b,8*44,32)) >> >>
       [] bc # lc -> Tag(p, "Malformed") \o raw
       [] OTHER -> Tag(p, "Reserved") \o raw

(* CardBus I/O window: four words at byte o (base lo/hi, limit lo/hi).     *)
CbWindow(b, o, p) ==
  LET c == Bits(b, 8*o, 2)
      lo(x) == <<4*Bits(b,8*x+2,2)>> \o Nibbles(b, 8*x+4, 12)
  IN CASE c = 0 -> Tag(p, "Addr16Bit") \o << << p \o ".base", NumStr(lo(o)) >>,
                                              << p \o ".limit", NumStr(lo(o+4)) >> >>
       [] c = 1 -> Tag(p, "Addr32Bit")
            \o << << p \o ".base", NumStr(lo(o) \o Nibbles(b,8*o+16,16)) >>,
                  << p \o ".limit", NumStr(lo(o+4) \o Nibbles(b,8*o+48,16)) >> >>
       [] OTHER -> Tag(p, "Unknown")
            \o << << p \o ".io_address_capability", Str(c) >>,
                  << p \o ".base_lower", NumStr(lo(o)) >>,
                  << p \o ".base_upper", U(b,8*o+16,16) >>,
                  << p \o ".limit_lower", NumStr(lo(o+4)) >>,
                  << p \o ".limit_upper", U(b,8*o+48,16) >> >>

(* The window encoded back into its four words: the capability bits are    *)
(* kept in the base only, and a 16-bit window has no upper halves.         *)
CbBack(b, o, p) ==
  LET c == Bits(b, 8*o, 2)
      ll == 4*Bits(b, 8*(o+4)+2, 14)
  IN Kv(p, IF c = 0 THEN U(b,8*o,16) \o " 0 " \o Str(ll) \o " 0"
           ELSE U(b,8*o,16) \o " " \o U(b,8*o+16,16) \o " " \o Str(ll) \o " " \o U(b,8*o+48,16))

(***************************************************************************)
(* Whole header.                                                           *)
(***************************************************************************)
Common(b) ==
  Fields(b, 0, "", << N("vendor_id",0,16), N("device_id",16,16), N("revision_id",64,8),
       N("class_code.interface",72,8), N("class_code.sub",80,8), N("class_code.base",88,8),
       N("cache_line_size",96,8), N("latency_timer",104,8), B("is_multi_function",119) >>)
  \o Fields(b, 32, "command.", CommandReg) \o Fields(b, 48, "status.", StatusReg)
  \o Fields(b, 120, "bist.", BistReg)

HeaderLayout(b) == Bits(b, 112, 7)

CapPtrAt(b, o) == 4 * Bits(b, 8*o+2, 6)     \* the two low bits are reserved
(* Where the capability list starts; 0: no list.                           *)
FirstCapPtr(b) == CASE HeaderLayout(b) \in {0, 1} -> CapPtrAt(b, 52)
                    [] HeaderLayout(b) = 2 -> CapPtrAt(b, 20)
                    [] OTHER -> 0
IsBridgeHeader(b) == HeaderLayout(b) = 1

Tail3C(b) == << << "interrupt_line", U(b, 8*60, 8) >>,
                << "interrupt_pin", EnumStr(PinE, Bits(b, 8*61, 8)) >>,
                << "fn_pin_byte", U(b, 8*61, 8) >> >>
(* Encoded back, an expansion ROM register is exact; as a 64-bit address   *)
(* it is the same number.                                                  *)
RomBack(b, o) == Kv("fn_rom", U(b,8*o,32)) \o Kv("fn_rom64", U(b,8*o,32))

HP == "header_type."
NormalPart(b) ==
  Tag("header_type", "Normal:Normal")
  \o Fields(b, 0, HP, << N("cardbus_cis_pointer",8*40,32), N("sub_vendor_id",8*44,16),
         N("sub_device_id",8*46,16), N("min_grant",8*62,8), N("max_latency",8*63,8) >>)
  \o RomAt(b, 48, HP \o "expansion_rom.") \o RomBack(b, 48) \o Bars(b, 16, 6) \o Tail3C(b)

BridgePart(b) ==
  Tag("header_type", "Bridge:Bridge")
  \o Fields(b, 0, HP, << N("primary_bus_number",8*24,8), N("secondary_bus_number",8*25,8),
         N("subordinate_bus_number",8*26,8), N("secondary_latency_timer",8*27,8),
         N("memory_base",8*32,16), N("memory_limit",8*34,16) >>)
  \o IoWindow(b, HP \o "io_address_range")
  \o Fields(b, 8*30, HP \o "secondary_status.", StatusReg)
  \o PrefWindow(b, HP \o "prefetchable_memory")
  \o RomAt(b, 56, HP \o "expansion_rom.") \o RomBack(b, 56)
  \o Fields(b, 8*62, HP \o "bridge_control.", BridgeControlReg)
  \o Bars(b, 16, 2) \o Tail3C(b)

CardbusPart(b) ==
  Tag("header_type", "Cardbus:Cardbus")
  \o Fields(b, 0, HP, << N("pci_bus_number",8*24,8), N("cardbus_bus_number",8*25,8),
         N("subordinate_bus_number",8*26,8), N("cardbus_latency_timer",8*27,8),
         N("memory_base_address_0",8*28,32), N("memory_limit_address_0",8*32,32),
         N("memory_base_address_1",8*36,32), N("memory_limit_address_1",8*40,32) >>)
  \o Fields(b, 8*22, HP \o "secondary_status.", StatusReg)
  \o CbWindow(b, 44, HP \o "io_access_address_range_0")
  \o CbWindow(b, 52, HP \o "io_access_address_range_1")
  \o CbBack(b, 44, "fn_io_0") \o CbBack(b, 52, "fn_io_1") \o Kv("fn_rom", "None")
  \o Fields(b, 8*62, HP \o "bridge_control.", CardbusControlReg)
  \o Bars(b, 16, 1) \o Tail3C(b)
  \o None(HP \o "subsystem_vendor_id") \o None(HP \o "subsystem_device_id")
  \o None(HP \o "legacy_mode_base_address") \o None(HP \o "reserved")

ReservedPart(b) ==
  Tag("header_type", "Reserved(" \o Str(HeaderLayout(b)) \o ")")
  \o << << "interrupt_line", "0" >>, << "interrupt_pin", "Unused" >>, << "fn_pin_byte", "0" >>, << "fn_rom", "None" >> >>

DecodeHeader(b) ==
  IF Len(b) < 64 THEN Err("could not convert slice to array")
  ELSE Ok(Common(b)
       \o Kv("capabilities_pointer", Str(FirstCapPtr(b)))
       \o Kv("fn_type_byte", Str(HeaderLayout(b)))
       \o Kv("fn_type_value", Str(HeaderLayout(b)))
       \o Kv("fn_bist_byte", Str(Bits(b,120,4) + 64*Bits(b,126,2)))
       \o CASE HeaderLayout(b) = 0 -> NormalPart(b)
            [] HeaderLayout(b) = 1 -> BridgePart(b)
            [] HeaderLayout(b) = 2 -> CardbusPart(b)
            [] OTHER -> ReservedPart(b))

(* CardBus optional registers, read from the device dependent region.      *)
CardbusOptional(d) ==
  IF Len(d) < 64 THEN Err("could not convert slice to array")
  ELSE Ok(SomeU("subsystem_vendor_id", d, 0, 16) \o SomeU("subsystem_device_id", d, 16, 16)
          \o SomeU("legacy_mode_base_address", d, 32, 32)
          \o Tag("reserved", "Some") \o ByteList("reserved.", d, 8, 56)
          \o Tag("again", "same") \o Tag("rest", "kept"))    \* replaces what was set before, and nothing else
=============================================================================
