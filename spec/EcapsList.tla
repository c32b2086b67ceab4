------------------------------ MODULE EcapsList ------------------------------
(***************************************************************************)
(* Extended capabilities with variable-length parts: 0005h Root Complex    *)
(* Link Declaration, 000Bh VSEC, 0015h/0024h (VF) Resizable BAR, 0016h     *)
(* Dynamic Power Allocation, 0017h TPH Requester, 0019h Secondary PCIe,    *)
(* 001Ah Protocol Multiplexing, 0023h DVSEC (with CXL), 0010h SR-IOV.      *)
(***************************************************************************)
EXTENDS EcapsVc, Header

(*---------------------- 0005h Root Complex Link Declaration ---------------*)
ElementE == En(<<"ConfigurationSpaceElement","SystemEgressPortOrInternalSink","InternalRootComplexLink">>,"Reserved")
LinkAddr(c, o, p, type) ==
  IF type = 0 THEN Kv(p, "MemoryMappedSpace(" \o U(c,8*o,64) \o ")")
  ELSE LET n0 == Bits(c,8*o,3)
           n == IF n0 = 0 THEN 8 ELSE n0
           lo == 20 + n                  \* address bits lo..63
           nib == Nibbles(c,8*o,64)
       IN Tag(p,"ConfigurationSpace") \o Kv(p \o ".n", Str(n))
          \o Fields(c,8*o,p \o ".", << N("reserved",3,9), N("function",12,3), N("device",15,5), N("bus",20,n) >>)
          \o Kv(p \o ".address", NumStr(ClearLow(nib, lo)))
LinkEntry(c, o) ==
  Fields(c,8*o,"link_description.", << B("link_valid",0), N("link_type",1,1), B("associate_rcrb_header",2),
      N("target_component_id",16,8), N("target_port_number",24,8) >>)
  \o LinkAddr(c,o+8,"link_address",Bits(c,8*o+1,1))
  \* the raw address dwords are recoverable
  \o Kv("raw", U(c,8*(o+8),32) \o " " \o U(c,8*(o+12),32))
(* whether the readable bytes hold the announced entries *)
LinkState(avail, num) == IF avail >= 16*num THEN "Valid" ELSE IF avail % 16 = 0 THEN "Incomplete" ELSE "Invalid"
RcldBody(c) ==
  IF Len(c) < 8 THEN Err("can't read Element Self Description (4 bytes) from slice")
  ELSE IF Bits(c,40,8) = 0 THEN Err("number of link entries must be > 1")
  ELSE IF Len(c) < 16 THEN Err("reserved space should be readable")
  ELSE IF Len(c) < 32 THEN Err("there must be at least one LinkEntry")
  ELSE LET num == Bits(c,40,8)
           avail == Len(c) - 16
           n == Min(num, avail \div 16)
       IN Ok(Fields(c,32,"element_self_description.", << E("element_type",0,4,ElementE), N("reserved",4,4),
               N("number_of_link_entries",8,8), N("component_id",16,8), N("port_number",24,8) >>)
         \o Kv("link_entries.state", LinkState(avail, num))
         \o Kv("fn_le.#", Str(n))
         \o CatN(n, LAMBDA k : LET le == LinkEntry(c,16*k)
              IN [i \in 1..Len(le) |-> << "fn_le." \o Str(k-1) \o "." \o le[i][1], le[i][2] >>]))
Rcld(c) == Pre("Root Complex Link Declaration error: ", RcldBody(c))

(*--------------------------------- 000Bh VSEC -----------------------------*)
Vsec(c) == IF Len(c) < 8 THEN EDataErr("Vendor-Specific Extended Capability", 4)
  ELSE LET l == Bits(c,52,12)
       IN Ok(Fields(c,32,"header.", << N("vsec_id",0,16), N("vsec_rev",16,4), N("vsec_length",20,12) >>)
          \o (IF l < 8 THEN Kv("registers", "InvalidLength(" \o Str(l) \o ")")
              ELSE IF Len(c) >= l THEN Tag("registers","Valid") \o ByteList("registers.",c,8,l-8)
              ELSE Tag("registers","Incomplete") \o ByteList("registers.",c,8,Len(c)-8)))

(*-------------------- 0015h / 0024h Resizable BAR -------------------------*)
(* Sizes 2^20 .. 2^63 a function supports, as a string of flags.           *)
RECURSIVE ReSizes(_,_,_,_)
ReSizes(c, o, p, acc) == IF p > 63 THEN acc
  ELSE ReSizes(c, o, p+1, acc \o (IF IsSet(c, IF p <= 47 THEN 8*o + p - 16 ELSE 8*(o+4) + 16 + p - 48) THEN "1" ELSE "0"))
RebarEntry == << N("capability.support_map_from_1mb_to_128tb",0,32), N("control.bar_index",32,3),
  N("control.number_of_resizable_bars",37,3), N("control.bar_size",40,6), N("control.support_map_from_256tb_to_8eb",48,16) >>
RebarBody(c) ==
  IF Len(c) < 12 THEN Err("should have at least one entry")
  ELSE LET n == Bits(c,64+5,3)
       IN IF n < 1 \/ n > 6 THEN Err("should have 1..=6 number of entries")
          ELSE IF Len(c) < 4 + 8*n THEN Err("entries data too short")
          ELSE Ok(Kv("fn_entries.#", Str(n))
            \o CatN(n, LAMBDA k : LET o == 4 + 8*(k-1)  p == "fn_entries." \o Str(k-1) \o "."
                 IN Fields(c,8*o,p,RebarEntry) \o Kv(p \o "sizes", ReSizes(c,o,20,"")) \o Kv(p \o "other_sizes", "false")))
Rebar(c) == Pre("Resizable BAR error: ", RebarBody(c))
VfRebar(c) == Pre("VF Resizable BAR error: ", RebarBody(c))

(*---------------------- 0016h Dynamic Power Allocation --------------------*)
DpaBody(c) ==
  IF Len(c) < 16 THEN Err("capability, latency indicator, status and control fields are unreadable")
  ELSE LET n == Bits(c,32,5) + 1
       IN IF Len(c) < 16 + n
          THEN Err("number of entries must be equal to the Substate_Max plus one (expected: " \o Str(n)
                   \o ", found: " \o Str(Len(c)-16) \o ")")
          ELSE Ok(Fields(c,32,"dpa_capability.", << N("substate_max",0,5),
                 E("transition_latency_unit",8,2,En(<<"Unit1ms","Unit10ms","Unit100ms","Reserved">>,"?")),
                 E("power_allocation_scale",12,2,En(<<"Mul10","Mul1_0","Mul0_1","Mul0_01">>,"?")),
                 N("transition_latency_value_0",16,8), N("transition_latency_value_1",24,8) >>)
            \o Fields(c,0,"", << N("dpa_latency_indicator",64,32), N("dpa_status.substate_status",96,5),
                 B("dpa_status.substate_control_enabled",104), N("dpa_control.substate_control",112,5) >>)
            \o ByteList("dpa_power_allocation_array.",c,16,n))
Dpa(c) == Pre("Dynamic Power Allocation error: ", DpaBody(c))

(*--------------------------- 0017h TPH Requester --------------------------*)
TphSt(c) ==
  LET loc == Bits(c,41,2)
      size == Bits(c,48,11)
      p == "tph_requester_capability.st_table"
  IN CASE loc = 0 -> Kv(p,"NotPresent")
       [] loc = 3 -> Kv(p,"Reserved")
       [] loc = 2 -> Tag(p,"MsiXTable") \o Kv(p \o ".size",Str(size))
       [] OTHER -> IF size <= 63 /\ Len(c) >= 12 + 2*size + 2
                   THEN Tag(p,"Valid") \o Kv(p \o ".size",Str(size)) \o ByteList(p \o ".data.",c,12,2*size+2)
                   ELSE Tag(p,"Invalid") \o Kv(p \o ".size",Str(size)) \o ByteList(p \o ".data.",c,12,Len(c)-12)
Tph(c) == IF Len(c) < 12 THEN EDataErr("TPH Requester", 8)
  ELSE Ok(Fields(c,32,"tph_requester_capability.", << B("no_st_mode_supported",0), B("interrupt_vector_mode_supported",1),
            B("device_specific_mode_supported",2), B("extended_tph_requester_supported",8) >>)
       \o TphSt(c)
       \o Fields(c,64,"tph_requester_control.", << E("st_mode_select",0,3,En(<<"NoStMode","InterruptVectorMode","DeviceSpecificMode">>,"Reserved")),
            E("tph_requester_enable",8,2,En(<<"NotPermitted","TphPermitted","Reserved","TphAndExtendedTphPermitted">>,"?")) >>))

(*---------------------- 0019h Secondary PCI Express -----------------------*)
PresetE == En(<<"P0","P1","P2","P3","P4","P5","P6","P7","P8","P9","P10">>,"Reserved")
HintE == En(<<"Minus6dB","Minus7dB","Minus8dB","Minus9dB","Minus10dB","Minus11dB","Minus12dB","Reserved">>,"?")
LaneReg == << E("downstream_port_transmitter_preset",0,4,PresetE), E("downstream_port_receiver_preset_hint",4,3,HintE),
  E("upstream_port_transmitter_preset",8,4,PresetE), E("upstream_port_receiver_preset_hint",12,3,HintE) >>
(* The driver asks for the lanes of links of every width 0..63: as many as *)
(* the link is wide, as far as they are readable, always the same first    *)
(* ones.                                                                   *)
LaneCount(c, width) == Min(width, (Len(c) - 12) \div 2)
RECURSIVE LaneCounts(_,_,_)
LaneCounts(c, w, acc) == IF w > 63 THEN acc ELSE LaneCounts(c, w+1, acc \o Str(LaneCount(c,w)) \o ",")
Lanes(c, pre) == LET n == LaneCount(c, 63)
  IN Kv(pre \o "#", Str(n)) \o CatN(n, LAMBDA k : Fields(c, 8*(12 + 2*(k-1)), pre \o Str(k-1) \o ".", LaneReg))
SecPcie(c) == IF Len(c) < 12 THEN EDataErr("Secondary PCI Express", 8)
  ELSE Ok(Fields(c,32,"link_control_3.", << B("perform_equalization",0), B("link_equalization_request_interrupt_enable",1) >>
               \o SpeedVector("lower_skp_os_generation_vector.",9))
       \o Kv("lane_error_status", "LaneErrorStatus(" \o U(c,64,32) \o ")")
       \o Lanes(c,"fn_lanes.") \o Kv("fn_lanes_counts", LaneCounts(c,0,"")) \o Kv("fn_lanes_same", "true"))

(*---------------------- 001Ah Protocol Multiplexing -----------------------*)
PmuxEntry == << N("protocol_id",0,16), N("authority_id",16,16), N("raw",0,32) >>
PmuxBody(c) ==
  IF Len(c) < 16 THEN Err("capability, control and status fields are unreadable")
  ELSE LET n == Bits(c,32,6)
       IN IF Len(c) < 16 + 4*n
          THEN Err("ureadable bytes for PMUX Protocol Array (expected: " \o Str(4*n) \o ", found: " \o Str(Len(c)-16) \o ")")
          ELSE Ok(Fields(c,32,"pmux_capability.", << N("pmux_protocol_array_size",0,6),
                 B("pmux_supported_link_speeds.speed_2_5_gtps",8), B("pmux_supported_link_speeds.speed_5_0_gtps",9),
                 B("pmux_supported_link_speeds.speed_8_0_gtps",10), B("pmux_supported_link_speeds.speed_16_0_gtps",11) >>)
            \o CatN(4, LAMBDA k : Fields(c,64+8*(k-1),"pmux_control.", << N("pmux_channel_" \o Str(k-1) \o "_assignment",0,6) >>)
                 \o Fields(c,96+8*(k-1),"pmux_status.", << B("pmux_channel_" \o Str(k-1) \o "_disabled_link_speed",0),
                      B("pmux_channel_" \o Str(k-1) \o "_disabled_link_width",1),
                      B("pmux_channel_" \o Str(k-1) \o "_disabled_link_protocol_specific",2) >>))
            \o Kv("fn_array.#", Str(n))
            \o CatN(n, LAMBDA k : Fields(c,8*(16+4*(k-1)),"fn_array." \o Str(k-1) \o ".", PmuxEntry)))
Pmux(c) == Pre("Protocol Multiplexing error: ", PmuxBody(c))

(*------------------------------ 0010h SR-IOV ------------------------------*)
Sriov(c) == IF Len(c) < 64 THEN EDataErr("Single Root I/O Virtualization", 60)
  ELSE Ok(Fields(c,0,"",SriovL \o << N("vf_migration_state_array_offset",8*60,32) >>) \o Bars(c,36,6))

(*------------------------------- 0023h DVSEC ------------------------------*)
CxlUnit == <<"","","NonCxlFunctionMapDvsec","Cxl20ExtensionsDvsecForPorts","GpfDvsecForCxlPorts","GpfDvsecForCxlDevices","",
  "PcieDvsecForFlexBusPort","RegisterLocatorDvsec","MldDvsec","PcieDvsecForTestCapability">>
CxlCap == << B("cache_capable",0), B("io_capable",1), B("mem_capable",2), B("mem_hwinit_mode",3),
  E("hdm_count",4,2,En(<<"ZeroRanges","OneHdmRange","TwoHdmRanges","Reserved">>,"?")),
  B("cache_writeback_and_invalidate_capable",6), B("cxl_reset_capable",7),
  E("cxl_reset_timeout",8,3,En(<<"MaxTime10ms","MaxTime100ms","MaxTime1s","MaxTime10s","MaxTime100s">>,"Reserved")),
  B("cxl_reset_mem_clr_capable",11), B("multiple_logical_device",13), B("viral_capable",14),
  B("pm_init_completion_reporting_capable",15) >>
SfCovE == En(<<"NoSnoopFilter">> \o [k \in 1..15 |-> "SnoopFilter(" \o Str(Pow2(k+15)) \o ")"]
   \o <<"SnoopFilter(hex:80000000)","SnoopFilter(hex:100000000)","SnoopFilter(hex:200000000)","SnoopFilter(hex:400000000)",
        "SnoopFilter(hex:800000000)","SnoopFilter(hex:1000000000)","SnoopFilter(hex:2000000000)","SnoopFilter(hex:4000000000)",
        "SnoopFilter(hex:8000000000)","SnoopFilter(hex:10000000000)","SnoopFilter(hex:20000000000)","SnoopFilter(hex:40000000000)",
        "SnoopFilter(hex:80000000000)","SnoopFilter(hex:100000000000)","SnoopFilter(hex:200000000000)","SnoopFilter(hex:400000000000)">>, "?")
CxlCtl == << B("cache_enable",0), B("io_enable",1), B("mem_enable",2), E("cache_sf_coverage",3,5,SfCovE),
  E("cache_sf_granularity",8,3,En(<<"Tracking64B","Tracking128B","Tracking256B","Tracking512B","Tracking1KB","Tracking2KB","Tracking4KB","Reserved">>,"?")),
  E("cache_clean_eviction",11,1,En(<<"Needed","NotNeeded">>,"?")), B("viral_enable",14) >>
CxlRangeLow == << B("memory_info_valid",0), B("memory_active",1), E("media_type",2,3,En(<<"Volatile","NonVolatile","Cdat">>,"Reserved")),
  E("memory_class",5,3,En(<<"Memory","Storage","Cdat">>,"Reserved")),
  E("desired_interleave",8,5,En(<<"NoInterleave","Granularity256B","Granularity4KB","Granularity512B","Granularity1KB",
     "Granularity2KB","Granularity8KB","Granularity16KB">>,"Reserved")),
  E("memory_active_timeout",13,3,En(<<"MaxTime1s","MaxTime4s","MaxTime16s","MaxTime64s","MaxTime256s">>,"Reserved")) >>
(* high dword at byte hi, low dword at hi+4; 256 MB granularity.           *)
Hi28(c, hi) == NumStr(<<0,0,0,0,0,0,0>> \o Nibbles(c,8*(hi+4)+28,4) \o Nibbles(c,8*hi,32))
CxlRange(c, k, o) ==
  Fields(c,8*(o+4),"dvsec_type.cxl_range_" \o Str(k) \o "_size.",CxlRangeLow)
  \o Kv("dvsec_type.cxl_range_" \o Str(k) \o "_size.memory_size", Hi28(c,o))
  \o Kv("dvsec_type.cxl_range_" \o Str(k) \o "_base.memory_base", Hi28(c,o+8))
CxlDevice(c) ==
  Tag("dvsec_type","ComputeExpressLink:PcieDvsecForCxlDevice:PcieDvsecForCxlDevice")
  \o Fields(c,8*10,"dvsec_type.cxl_capability.",CxlCap) \o Fields(c,8*12,"dvsec_type.cxl_control.",CxlCtl)
  \o Fields(c,0,"dvsec_type.", << B("cxl_status.viral_status",8*14+14), B("cxl_control2.disable_caching",8*16),
       B("cxl_control2.initiate_cache_write_back_and_invalidation",8*16+1), B("cxl_control2.initiate_cxl_reset",8*16+2),
       B("cxl_control2.cxl_reset_mem_clr_enable",8*16+3), B("cxl_status2.cache_invalid",8*18), B("cxl_status2.cxl_reset_complete",8*18+1),
       B("cxl_status2.cxl_reset_error",8*18+2), B("cxl_status2.power_management_initialization_complete",8*18+15),
       B("cxl_lock.config_lock",8*20), E("cxl_capability2.cache_size_unit",8*22,4,En(<<"NotReported","Unit64K","Unit1MB">>,"Reserved")),
       N("cxl_capability2.cache_size",8*22+8,8) >>)
  \o CxlRange(c,1,24) \o CxlRange(c,2,40)
DvsecBody(c) ==
  IF Len(c) < 10 THEN Err("mandatory fields are unreadable")
  ELSE LET vid == Bits(c,32,16)  rev == Bits(c,48,4)  l == Bits(c,52,12)  id == Bits(c,64,16)
           hex(v, n) == HexStr([k \in 1..n |-> (v \div Pow2(4*(k-1))) % 16])
           head == Fields(c,32,"", << N("dvsec_vendor_id",0,16), N("dvsec_revision",16,4), N("dvsec_length",20,12), N("dvsec_id",32,16) >>)
       IN IF l < 10 \/ l > Len(c)
          THEN Err("Vendor-specific registers (VID: " \o hex(vid,4) \o ", rev: " \o hex(rev,2) \o ", ID: " \o hex(id,4)
                   \o ") are unreadable. Length expected: " \o Str(l) \o ", real: " \o Str(Len(c)))
          ELSE IF vid # 7832      \* 1E98h
          THEN Ok(head \o Tag("dvsec_type","Unspecified") \o ByteList("dvsec_type.",c,10,l-10))
          ELSE IF id = 0
          THEN IF l < 56 THEN Err("Compute Express Link error: PCIe DVSEC for CXL Device")
               ELSE Ok(head \o CxlDevice(c))
          ELSE Ok(head \o Kv("dvsec_type", "ComputeExpressLink(" \o
                 (IF id < Len(CxlUnit) /\ CxlUnit[id+1] # "" THEN CxlUnit[id+1] \o "(" \o CxlUnit[id+1] \o "))"
                  ELSE "Undefined(" \o Str(id) \o "))")))
Dvsec(c) == Pre("Designated Vendor-Specific Extended Capabilities error: ", DvsecBody(c))
=============================================================================
