----------------------------- MODULE CapsBridge -----------------------------
(***************************************************************************)
(* Capabilities 07h PCI-X (device and bridge forms) and 15h Flattening     *)
(* Portal Bridge.  b: bytes after the two-byte capability header.          *)
(***************************************************************************)
EXTENDS CapsMisc

(*-------------------------------- 07h PCI-X -------------------------------*)
EccPhaseE == En(<<"NoError","First32bits","Second32bits","AttributePhase","Phase32or16bit",
                  "Phase64bit","Reserved","Reserved">>, "?")
EccReg == << B("select_secondary_ecc_registers",0), B("error_present_in_other_ecc_register_bank",1),
  B("additional_correctable_ecc_error",2), B("additional_uncorrectable_ecc_error",3),
  E("ecc_error_phase",4,3,EccPhaseE), B("ecc_error_corrected",7),
  B("syndrome.e0",8), B("syndrome.e1",9), B("syndrome.e2",10), B("syndrome.e3",11),
  B("syndrome.e4",12), B("syndrome.e5",13), B("syndrome.e6",14), B("syndrome.e7",15),
  N("error_first_command",16,4), N("error_second_command",20,4), N("error_upper_attributes",24,4),
  B("ecc_control_update_enable",28), B("disable_single_bit_error_correction",30), B("ecc_mode",31) >>
(* Registers present according to the two-bit item version v.              *)
Ecc(b, o, v) ==
  CASE v = 0 -> Kv("ecc","None")
    [] v = 3 -> Kv("ecc","Reserved")
    [] OTHER -> Tag("ecc", IF v = 1 THEN "Mode2Only" ELSE "Mode1OrMode2")
         \o Fields(b,8*o,"ecc.control_and_status.",EccReg)
         \o Fields(b,8*o,"ecc.", << N("first_address",32,32), N("second_address",64,32), N("attribute",96,32) >>)
EccMissing(v) == Err(IF v = 1 THEN "Mode 2 ECC registres unreadable" ELSE "Mode 1/2 ECC registres unreadable")

OstName == <<1,2,3,4,8,12,16,32>>
PciXCommand == << B("uncorrectable_data_error_recovery_enable",0), B("enable_relaxed_ordering",1),
  E("maximum_memory_read_byte_count",2,2,New("MaximumByteCount")),
  E("maximum_outstanding_split_transactions",4,3,New("MaximumOutstandingSplitTransactions")) >>
PciXStatus == << N("function_number",0,3), N("device_number",3,5), N("bus_number",8,8),
  B("device_64_bit",16), B("pci_x_133_capable",17), B("slit_completion_discarded",18),
  B("unexpected_split_completion",19), E("device_complexity",20,1,En(<<"Simple","Bridge">>,"?")),
  E("designed_maximum_memory_read_byte_count",21,2,New("MaximumByteCount")),
  E("designed_maximum_outstanding_split_transactions",23,3,New("MaximumOutstandingSplitTransactions")),
  E("designed_maximum_cumulative_read_size",26,3,New("MaximumCumulativeReadSize")),
  B("received_split_completion_error_message",29), B("pci_x_266_capable",30), B("pci_x_533_capable",31) >>
PciX(b) ==
  IF Len(b) < 6 THEN Err("command and status registers are unreadable")
  ELSE LET v == Bits(b,12,2)
       IN IF v \in {1,2} /\ Len(b) < 22 THEN EccMissing(v)
          ELSE Ok(Fields(b,0,"command.",PciXCommand) \o Fields(b,16,"status.",PciXStatus) \o Ecc(b,6,v)
            \o Kv("fn_max_read", Str(Pow2(9+Bits(b,2,2))))
            \o Kv("fn_max_split", Str(OstName[Bits(b,4,3)+1]))
            \o Kv("fn_designed_max_read", Str(Pow2(9+Bits(b,37,2))))
            \o Kv("fn_designed_max_split", Str(OstName[Bits(b,39,3)+1]))
            \o Kv("fn_cumulative_adqs", Str(Pow2(3+Bits(b,42,3))))
            \* an ADQ is 128 bytes
            \o Kv("fn_cumulative_bytes", Str(128*Pow2(3+Bits(b,42,3)))))

BusMode(v) == CASE v = 0 -> "Conventional" [] v \in 1..7 -> "Mode1" [] v \in 8..11 -> "PciX266" [] OTHER -> "PciX533"
BusProt(v) == IF v <= 3 THEN "Parity" ELSE "Ecc"
BusFreq(v) == CASE v = 0 -> "NotAvailable" [] v > 0 /\ v % 4 = 0 -> "Reserved" [] v % 4 = 1 -> "Freq66MHz"
                [] v % 4 = 2 -> "Freq100MHz" [] OTHER -> "Freq133MHz"
PciXSecondary == << B("device_64_bit",0), B("pci_x_133_capable",1), B("slit_completion_discarded",2),
  B("unexpected_split_completion",3), B("split_completion_overrun",4), B("split_request_delayed",5),
  B("pci_x_266_capable",14), B("pci_x_533_capable",15) >>
PciXBridgeStatus == << N("function_number",0,3), N("device_number",3,5), N("bus_number",8,8),
  B("device_64_bit",16), B("pci_x_133_capable",17), B("slit_completion_discarded",18),
  B("unexpected_split_completion",19), B("split_completion_overrun",20), B("split_request_delayed",21),
  B("device_id_messaging_capable",29), B("pci_x_266_capable",30), B("pci_x_533_capable",31) >>
PciXBridge(b) ==
  IF Len(b) < 14 THEN Err("statuses and split trx control registers are unreadable")
  ELSE LET v == Bits(b,12,2)
           m == Bits(b,6,4)
       IN IF v \in {1,2} /\ Len(b) < 30 THEN EccMissing(v)
          ELSE Ok(Fields(b,0,"secondary_status.",PciXSecondary)
            \o Kv("secondary_status.secondary_bus_mode",BusMode(m))
            \o Kv("secondary_status.error_protection",BusProt(m))
            \o Kv("secondary_status.secondary_bus_frequency",BusFreq(m))
            \o Kv("fn_mode_and_frequency",Str(m))
            \o Fields(b,16,"bridge_status.",PciXBridgeStatus)
            \o Fields(b,48,"upstream_split_transaction_control.",
                 << N("split_transaction_capacity",0,16), N("split_transaction_commitment_limit",16,16) >>)
            \o Fields(b,80,"downstream_split_transaction_control.",
                 << N("split_transaction_capacity",0,16), N("split_transaction_commitment_limit",16,16) >>)
            \o Ecc(b,14,v))

(*---------------------- 15h Flattening Portal Bridge ----------------------*)
FpbCaps == << B("fpb_rid_decode_mechanism_supported",0), B("fpb_mem_low_decode_mechanism_supported",1),
  B("fpb_mem_high_decode_mechanism_supported",2), N("fpb_num_sec_dev",3,5),
  E("fpb_rid_vector_size_supported",8,3,En(<<"Size256bits","","Size1Kbits","","","Size8kbits">>,"Reserved")),
  E("fpb_mem_low_vector_size_supported",16,3,
    En(<<"Size256bits","Size512bits","Size1Kbits","Size2Kbits","Size4Kbits">>,"Reserved")),
  E("fpb_mem_high_vector_size_supported",24,3,
    En(<<"Size256bits","Size512bits","Size1Kbits","Size2Kbits","Size4Kbits","Size8Kbits">>,"Reserved")) >>
FpbRidGranE == En(<<"Granularity8RIDs","","","Granularity64RIDs","","Granularity256RIDs">>,"Reserved")
FpbLowGranE == En(<<"Granularity1MB","Granularity2MB","Granularity4MB","Granularity8MB","Granularity16MB">>,"Reserved")
FpbHighGranE == En(<<"Granularity256MB","Granularity512MB","Granularity1GB","Granularity2GB","Granularity4GB",
   "Granularity8GB","Granularity16GB","Granularity32GB">>,"Reserved")
(* The start address is aligned to the granularity: its low g bits (above  *)
(* the unit) read as zero.                                                 *)
AlignDown(v, g) == (v \div Pow2(g)) * Pow2(g)
(* Nibbles of an n-nibble number with the g low bits cleared.              *)
ClearLow(nibs, g) == [k \in 1..Len(nibs) |->
   LET lo == 4*(k-1) IN IF g >= lo+4 THEN 0 ELSE IF g <= lo THEN nibs[k] ELSE AlignDown(nibs[k], g-lo)]
Fpb(b) ==
  IF Len(b) < 34 THEN DataErr("Flattening Portal Bridge", 34)
  ELSE LET rg == Bits(b,16+32+4,4)   lg == Bits(b,16+96+4,4)   hg == Bits(b,16+128+4,4)
       IN Ok(Fields(b,0,"", << N("reserved",0,16), N("fpb_vector_access_data",16+224,32) >>)
        \o Fields(b,16,"fpb_capabilities.",FpbCaps)
        \o Fields(b,48,"fpb_rid_vector_control.", << B("fpb_rid_decode_mechanism_enable",0),
             E("fpb_rid_vector_granularity",4,4,FpbRidGranE), N("rid_secondary_start",32+3,13) >>)
        \o (IF rg <= 12 THEN Kv("fpb_rid_vector_control.fpb_rid_vector_start",
                                Str(8*AlignDown(Bits(b,48+19,13),rg))) ELSE << >>)
        \o Fields(b,112,"fpb_mem_low_vector_control.", << B("fpb_mem_low_decode_mechanism_enable",0),
             E("fpb_mem_low_vector_granularity",4,4,FpbLowGranE) >>)
        \o (IF lg <= 11 THEN Kv("fpb_mem_low_vector_control.fpb_mem_low_vector_start",
               NumStr(<<0,0,0,0,0>> \o ClearLow(Nibbles(b,112+20,12),lg))) ELSE << >>)
        \o Fields(b,144,"fpb_mem_high_vector_control.", << B("fpb_mem_high_decode_mechanism_enable",0),
             E("fpb_mem_high_vector_granularity",4,4,FpbHighGranE) >>)
        \o Kv("fpb_mem_high_vector_control.fpb_mem_high_vector_start",
               NumStr(<<0,0,0,0,0,0,0>> \o ClearLow(Nibbles(b,144+28,36),hg)))
        \o Fields(b,16+192,"fpb_vector_access_control.", << N("fpb_vector_access_offset",0,8),
             E("fpb_vector_select",14,2,En(<<"Rid","MemLow","MemHigh","Reserved">>,"?")) >>))
=============================================================================
