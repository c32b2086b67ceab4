------------------------------ MODULE CapsBasic ------------------------------
(***************************************************************************)
(* Capabilities 01h Power Management, 02h AGP, 03h VPD, 04h Slot           *)
(* Identification, 05h MSI.  b is the capability's data: the bytes after   *)
(* its two-byte header (offset o of the capability structure is o-2 here). *)
(***************************************************************************)
EXTENDS Bits

DataErr(name, size) == Err(name \o " (" \o Str(size) \o " bytes)")

(*-------------------------- 01h Power Management --------------------------*)
AuxE == En(<<"SelfPowered","MaxCurrent55mA","MaxCurrent100mA","MaxCurrent160mA",
  "MaxCurrent220mA","MaxCurrent270mA","MaxCurrent320mA","MaxCurrent375mA">>, "?")
PowerStateE == En(<<"D0","D1","D2","D3Hot">>, "?")
DataSelectE == En(<<"PowerConsumedD0","PowerConsumedD1","PowerConsumedD2","PowerConsumedD3",
  "PowerDissipatedD0","PowerDissipatedD1","PowerDissipatedD2","PowerDissipatedD3",
  "CommonLogic">>, "Reserved")
DataScaleE == En(<<"Unknown","Tenth","Hundredth","Thousandth">>, "?")
PmcReg == << N("version",0,3), B("pme_clock",3), B("immediate_readiness_on_return_to_d0",4),
  B("device_specific_initialization",5), E("aux_current",6,3,AuxE), B("d1_support",9),
  B("d2_support",10), B("pme_support.d0",11), B("pme_support.d1",12),
  B("pme_support.d2",13), B("pme_support.d3_hot",14), B("pme_support.d3_cold",15) >>
PmcsrReg == << E("power_state",0,2,PowerStateE), B("no_soft_reset",3), B("pme_enabled",8),
  E("data_select",9,4,DataSelectE), E("data_scale",13,2,DataScaleE), B("pme_status",15) >>
PowerManagement(b) ==
  IF Len(b) < 6 THEN DataErr("Power Management Interface", 6)
  ELSE Ok(Fields(b,0,"capabilities.",PmcReg) \o Fields(b,16,"control.",PmcsrReg)
       \o Fields(b,32,"bridge.", << N("reserved",0,6), B("b2_b3",6), B("bpcc_enabled",7) >>)
       \o Fields(b,40,"", << N("data",0,8) >>)
       \* the state-dependent data value, reported only when present
       \o IF Bits(b,40,8) = 0 THEN None("fn_data")
          ELSE Tag("fn_data","Some:Data") \o Fields(b,40,"fn_data.", << N("value",0,8) >>)
               \o Fields(b,16,"fn_data.", << E("select",9,4,DataSelectE), E("scale",13,2,DataScaleE) >>))

(*-------------------------------- 02h AGP ---------------------------------*)
CalE == En(<<"Period4ms","Period16ms","Period64ms","Period256ms","","","",
             "CalibrationCycleNotNeeded">>, "Reserved")
RateSupE == En(<<"","Speed4x","Speed8x","Speed4xAnd8x">>, "Reserved")
RateEnE  == En(<<"","Speed4x","Speed8x">>, "Reserved")
AgpStatus == << E("rate",0,3,RateSupE), B("agp_3_0_mode",3), B("fw",4), B("over4g",5),
  B("htrans",6), B("gart64b",7), B("ita_coh",8), B("sba",9), E("cal_cycle",10,3,CalE),
  N("arqsz",13,3), B("reserved",16), B("isoch_support",17), N("rq",24,8) >>
AgpCommand == << E("drate",0,3,RateEnE), B("fw_enable",4), B("over4g",5), B("gart64b",7),
  B("agp_enable",8), B("sba_enable",9), E("pcal_cycle",10,3,CalE), N("parqsz",13,3),
  N("prq",24,8) >>
AgpIsochStatus == << E("isoch_error_code",0,2,New("IsochErrorCode")), N("isoch_l",3,3),
  E("isoch_y",6,2,New("IsochY")), N("isoch_n",8,8), N("maxbw",16,8) >>
Agp(b) ==
  IF Len(b) < 10 THEN DataErr("AGP", 10)
  ELSE LET isoch == IsSet(b, 16+17)
           has(end) == Len(b) >= end
       IN Ok(Fields(b,0,"identifier.", << N("minor",0,4), N("major",4,4) >>)
        \o Fields(b,16,"status.",AgpStatus) \o Fields(b,48,"command.",AgpCommand)
        \o (IF has(14) /\ isoch
            THEN Tag("isochronous_status","Some:IsochronousStatus")
                 \o Fields(b,80,"isochronous_status.",AgpIsochStatus)
            ELSE None("isochronous_status"))
        \o (IF has(18) THEN Tag("control","Some:Control")
                 \o Fields(b,112,"control.", << B("gtlben",7), B("aperenb",8), B("cal_cycle_dis",9) >>)
            ELSE None("control"))
        \o (IF has(20) THEN Kv("aperture_size","Some(ApertureSize(" \o U(b,144,16) \o "))")
            ELSE None("aperture_size"))
        \o (IF has(22) THEN Kv("enabled_aperture_page_size",
                 "Some(EnabledAperturePageSize(" \o U(b,160,16) \o "))")
            ELSE None("enabled_aperture_page_size"))
        \o (IF has(26) THEN Tag("gart_pointer","Some:GartPointer")
                 \o Kv("gart_pointer.gartlo",U(b,176,32))
                 \o Kv("gart_pointer.garthi", IF has(30) THEN U(b,208,32) ELSE "0")
            ELSE None("gart_pointer"))
        \o (IF has(32) /\ isoch THEN Tag("isochronous_command","Some:IsochronousCommand")
                 \o Fields(b,240,"isochronous_command.", << N("pisoch_y",6,2), N("pisoch_n",8,8) >>)
            ELSE None("isochronous_command")))

(*-------------------------------- 03h VPD ---------------------------------*)
Vpd(b) == IF Len(b) < 6 THEN DataErr("Vital Product Data", 6)
  ELSE Ok(Fields(b,0,"", << N("vpd_address",0,15), B("transfer_completed",15), N("vpd_data",16,32) >>))

(*-------------------------- 04h Slot Identification ------------------------*)
SlotId(b) == IF Len(b) < 2 THEN DataErr("Slot Identification", 2)
  ELSE Ok(Fields(b,0,"", << N("expansion_slot.expansion_slots_provided",0,5),
            B("expansion_slot.first_in_chassis",5), N("chassis_number",8,8) >>))

(*-------------------------------- 05h MSI ---------------------------------*)
MsiControl == << B("msi_enable",0), E("multiple_message_capable",1,3,New("MultipleMessage")),
  E("multiple_message_enable",4,3,New("MultipleMessage")), B("a_64_bit_address_capable",7),
  B("per_vector_masking_capable",8), B("extended_message_data_capable",9),
  B("extended_message_data_enable",10) >>
Msi(b) ==
  IF Len(b) < 2 THEN Err("MessageControl")
  ELSE LET q == IsSet(b,7)
           pvm == IsSet(b,8)
           a == IF q THEN 4 ELSE 0           \* shift of everything after the address
           need == 10 + a + (IF pvm THEN 8 ELSE 0)
       IN IF Len(b) < need
          THEN Err(CASE ~q /\ ~pvm -> "Size32bit" [] q /\ ~pvm -> "Size64bit"
                     [] ~q /\ pvm -> "Size32bitPerVector" [] OTHER -> "Size64bitPerVector")
          ELSE Ok(Fields(b,0,"message_control.",MsiControl)
             \o Kv("message_address", IF q THEN "Qword(" \o U(b,16,64) \o ")"
                                           ELSE "Dword(" \o U(b,16,32) \o ")")
             \o Kv("message_data", U(b,8*(6+a),16)) \o Kv("extended_message_data", U(b,8*(8+a),16))
             \o (IF pvm THEN SomeU("mask_bits",b,8*(10+a),32) \o SomeU("pending_bits",b,8*(14+a),32)
                 ELSE None("mask_bits") \o None("pending_bits"))
             \o Kv("fn_capable_vectors", Str(Pow2(Bits(b,1,3))))
             \o Kv("fn_enable_vectors", Str(Pow2(Bits(b,4,3)))))
=============================================================================
