------------------------------- MODULE EcapsVc -------------------------------
(***************************************************************************)
(* 0002h/0009h Virtual Channel and 0008h Multi-Function Virtual Channel.   *)
(* c: the whole structure from its header on.                              *)
(***************************************************************************)
EXTENDS EcapsError

RefClockE == En(<<"Rc100ns">>,"Reserved")
PortCap1(entryName, entryType) == << N("extended_vc_count",0,3), N("low_priority_extended_vc_count",4,3),
  E("reference_clock",8,2,RefClockE), E(entryName,10,2,New(entryType)) >>
PortCap2 == << B("vc_arbitration_capability.hardware_fixed_arbitration",0), B("vc_arbitration_capability.wrr_32_phases",1),
  B("vc_arbitration_capability.wrr_64_phases",2), B("vc_arbitration_capability.wrr_128_phases",3),
  N("vc_arbitration_capability.reserved",4,4), N("vc_arbitration_table_offset",24,8) >>
VcSelE == En(<<"HardwareFixedArbitration","Wrr32phases","Wrr64phases","Wrr128phases">>,"Reserved")
PortCtl == << B("load_vc_arbitration_table",0), E("vc_arbitration_select",1,3,VcSelE) >>
PortRegs(c, entryName, entryType) ==
  Fields(c,32,"port_vc_capability_1.",PortCap1(entryName,entryType)) \o Fields(c,64,"port_vc_capability_2.",PortCap2)
  \o Fields(c,96,"port_vc_control.",PortCtl) \o Kv("port_vc_status.vc_arbitration_table_status", Bl(c,112))

(* Table lengths (number of entries) by selected arbitration scheme.       *)
VatLen(s) == CASE s = 1 -> 32 [] s = 2 -> 64 [] s = 3 -> 128 [] OTHER -> 0
PatLen(s) == CASE s = 1 -> 32 [] s = 2 -> 64 [] s \in {3,4} -> 128 [] s = 5 -> 256 [] OTHER -> 0
PatSelE == En(<<"HardwareFixedArbitration","Wrr32phases","Wrr64phases","Wrr128phases","TimeBasedWrr128phases",
  "Wrr256phases">>,"Reserved")

(* n entries of w bits from byte o on, as "e0,e1,...,".  keep: low bits of *)
(* each entry that carry the value.                                        *)
RECURSIVE Entries(_,_,_,_,_,_)
Entries(c, bit, w, keep, n, acc) == IF n = 0 THEN acc
  ELSE Entries(c, bit+w, w, keep, n-1, acc \o Str(Bits(c,bit,keep)) \o ",")
Table(c, o, w, keep, n) == IF o = 0 \/ Len(c) < o + (n*w) \div 8 THEN "" ELSE Entries(c,8*o,w,keep,n,"")

ArbFlags(pre) == << B(pre \o "hardware_fixed_arbitration",0), B(pre \o "wrr_32_phases",1), B(pre \o "wrr_64_phases",2),
  B(pre \o "wrr_128_phases",3), B(pre \o "time_based_wrr_128_phases",4), B(pre \o "wrr_256_phases",5), N(pre \o "reserved",6,2) >>

(*----------------------------- Virtual Channel ----------------------------*)
VcRes == ArbFlags("vc_resource_capability.port_arbitration_capability.")
  \o << B("vc_resource_capability.advanced_packet_switching",14), B("vc_resource_capability.reject_snoop_transactions",15),
  N("vc_resource_capability.maximum_time_slots",16,7), N("vc_resource_capability.port_arbitration_table_offset",24,8) >>
  \o R("vc_resource_control.",4, << N("tc_or_vc_map",0,8), B("load_port_arbitration_table",16),
       E("port_arbitration_select",17,3,PatSelE), N("vc_id",24,3), B("vc_enable",31) >>)
  \o R("vc_resource_status.",10, << B("port_arbitration_table_status",0), B("vc_negotiation_pending",1) >>)
(* Resources actually readable: one per VC, twelve bytes each.             *)
VcCount(c) == Min(Bits(c,32,3) + 1, (Len(c) - 16) \div 12)
VirtualChannel(c) ==
  IF Len(c) < 16 THEN EDataErr("Virtual Channel", 12)
  ELSE LET w == Pow2(Bits(c,42,2))
           n == VcCount(c)
       IN Ok(PortRegs(c,"port_arbitration_table_entry_size","PortArbitrationTableEntrySize")
        \o Kv("fn_entry_bits", Str(w))
        \o Kv("fn_vat", Table(c,16*Bits(c,88,8),4,3,VatLen(Bits(c,97,3))))
        \o Kv("fn_evc.#", Str(n))
        \o CatN(n, LAMBDA k : LET o == 16 + 12*(k-1)  p == "fn_evc." \o Str(k-1) \o "."
             IN Fields(c,8*o,p,VcRes)
                \o Kv(p \o "pat", Table(c,16*Bits(c,8*o+24,8),w,w,PatLen(Bits(c,8*(o+4)+17,3))))))

(*---------------------- Multi-Function Virtual Channel --------------------*)
MfvcRes == ArbFlags("vc_resource_capability.function_arbitration_capability.")
  \o << N("vc_resource_capability.maximum_time_slots",16,7), N("vc_resource_capability.function_arbitration_table_offset",24,8) >>
  \o R("vc_resource_control.",4, << N("tc_to_vc_map",0,8), B("load_function_arbitration_table",16),
       E("function_arbitration_select",17,3,PatSelE), N("vc_id",24,3), B("vc_enable",31) >>)
  \o R("vc_resource_status.",10, << B("function_arbitration_table_status",0), B("vc_negotiation_pending",1) >>)
MfvcFat(c, o, w) ==
  LET to == 16*Bits(c,8*o+24,8)
      n == PatLen(Bits(c,8*(o+4)+17,3))
  IN IF to < 32 \/ Len(c) < to + (n*w) \div 8 THEN "None" ELSE "Some:" \o Entries(c,8*to,w,w,n,"")
MfvcBody(c) ==
  IF Len(c) < 16 THEN Err("capability 1, capability 2, control and status of Port VC are unreadable")
  ELSE LET vo == Bits(c,88,8)
           vlen == VatLen(Bits(c,97,3)) \div 2
           w == Pow2(Bits(c,42,2))
           n == VcCount(c)
       IN IF vo = 1 THEN Err("VC Arbitration Table offset should be >= 2 * 10h")
          ELSE IF vo > 1 /\ 16*vo > Len(c) THEN Err("VC Arbitration Table data ureadable")
          ELSE IF vo > 1 /\ 16*vo + vlen > Len(c)
               THEN Err("VC Arbitration Table data too short: expected " \o Str(vlen) \o ", real " \o Str(Len(c) - 16*vo))
          ELSE Ok(PortRegs(c,"function_arbitration_table_entry_size","FunctionArbitrationTableEntrySize")
            \o Kv("fn_vat", IF vo = 0 THEN "None" ELSE "Some:" \o Entries(c,8*16*vo,4,3,2*vlen,""))
            \o Kv("fn_evc.#", Str(n))
            \o CatN(n, LAMBDA k : LET o == 16 + 12*(k-1)  p == "fn_evc." \o Str(k-1) \o "."
                 IN Fields(c,8*o,p,MfvcRes) \o Kv(p \o "fat", MfvcFat(c,o,w))
                    \* the raw resource registers, reserved bits cleared
                    \o Kv(p \o "raw", NumStr(Keep(c,o,{<<0,8>>,<<16,7>>,<<24,8>>})) \o " "
                         \o NumStr(Keep(c,o+4,{<<0,8>>,<<16,4>>,<<24,3>>,<<31,1>>})) \o " "
                         \o NumStr(Keep(c,o+8,{<<16,2>>})))))
Mfvc(c) == Pre("Multi-Function Virtual Channel error: ", MfvcBody(c))
=============================================================================
