----------------------------- MODULE EcapsSimple -----------------------------
(***************************************************************************)
(* PCI Express extended capabilities with a fixed layout.  c is the whole  *)
(* structure, from its four-byte header on, as far as it can be read;      *)
(* R(pre, o, fs) describes the register at byte offset o.                  *)
(***************************************************************************)
EXTENDS CapsPcie

R(pre, o, fs) == [i \in 1..Len(fs) |->
  IF Len(fs[i]) = 4 THEN << pre \o fs[i][1], fs[i][2] + 8*o, fs[i][3], fs[i][4] >>
  ELSE << pre \o fs[i][1], fs[i][2] + 8*o, fs[i][3], fs[i][4], fs[i][5] >>]

EDataErr(name, size) == Err(name \o " (" \o Str(size) \o " bytes) data read error")
(* A capability of `need` bytes in all; name and size identify it in the   *)
(* error.                                                                  *)
Fixed(c, need, name, size, layout) ==
  IF Len(c) < need THEN EDataErr(name, size) ELSE Ok(Fields(c, 0, "", layout))

(*---------------------- 0003h Device Serial Number -----------------------*)
DsnL == << N("lower_dword",32,32), N("upper_dword",64,32) >>

(*------------------------- 0004h Power Budgeting --------------------------*)
BasePowerE == En([k \in 1..240 |-> "Value(" \o Str(k-1) \o ")"]
   \o <<"Gt239Le250","Gt250Le275","Gt275Le300">> \o [k \in 1..13 |-> "Gt300"], "?")
PbDataReg == << E("base_power",0,8,BasePowerE), E("data_scale",8,2,En(<<"One","Deci","Centi","Milli">>,"?")),
  E("pm_sub_state",10,3,En(<<"Default">>,"Specific")), E("pm_state",13,2,En(<<"D0","D1","D2","D3">>,"?")),
  E("operation_condition_type",15,3,En(<<"PmeAux","Auxiliary","Idle","Sustained",
     "SustainedEmergencyPowerReductionState","MaximumEmergencyPowerReductionState","","Maximum">>,"Reserved")),
  E("power_rail",18,3,En(<<"Power12v","Power3_3v","Power1_5vOr1_8v","","","","","Thermal">>,"Reserved")) >>
PowerBudgetL == << N("data_select",32,8) >> \o R("data.",8,PbDataReg) \o << B("power_budget_capability.system_allocated",96) >>
(* What one unit of the base power is worth, in milliwatts.                *)
PowerBudget(c) ==
  LET r == Fixed(c, 16, "Power Budgeting", 12, PowerBudgetL)
  IN IF ~r.ok THEN r ELSE Ok(r.f \o Kv("fn_milli", <<"1000","100","10","1">>[Bits(c,72,2)+1]))

(*---------------- 0006h Root Complex Internal Link Control ----------------*)
RcLinkCaps == << E("max_link_speed",0,4,SpeedE), E("maximum_link_width",4,6,LinkWidthE),
  E("active_state_power_management_support",10,2,AspmE),
  PeLinkCaps[4], PeLinkCaps[5] >> \o SpeedVector("supported_link_speeds_vector.",18)
RcilcL == R("root_complex_link_capabilities.",4,RcLinkCaps)
  \o R("root_complex_link_control.",8, << E("active_state_power_management_control",0,2,AspmE), B("extended_synch",7) >>)
  \o R("root_complex_link_status.",10, << E("current_link_speed",0,4,SpeedE), E("negotiated_link_width",4,6,LinkWidthE) >>)

RcecL == << N("association_bitmap_for_rcieps",32,32) >>

(*------------------- 000Ah RCRB header, 000Ch CAC -------------------------*)
RcrbL == << N("vendor_id",32,16), N("device_id",48,16), B("rcrb_capabilities.crs_software_visibility",64),
  B("rcrb_control.crs_software_visibility_enable",96) >>
CacL == << N("device_correlation",32,32) >>

(*--------------------------- 000Eh ARI, 000Fh ATS -------------------------*)
AriL == R("ari_capability.",4, << B("mfvc_function_groups_capability",0), B("acs_function_groups_capability",1),
            N("next_function_number",8,8) >>)
     \o R("ari_control.",6, << B("mfvc_function_groups_enable",0), B("acs_function_groups_enable",1), N("function_group",4,3) >>)
AtsL == R("ats_capability.",4, << N("invalidate_queue_depth",0,5), B("page_aligned_request",5), B("global_invalidate_supported",6) >>)
     \o R("ats_control.",6, << N("smallest_translation_unit",0,5), B("enable",15) >>)

(*------------------------------ 0010h SR-IOV ------------------------------*)
SriovL == R("sriov_capabilities.",4, << B("vf_migration_capable",0), B("ari_capable_hierarchy_preserved",1),
         B("vf_10bit_tag_requester_supported",2), N("vf_migration_interrupt_message_number",21,11) >>)
  \o R("sriov_control.",8, << B("vf_enable",0), B("vf_migration_enable",1), B("vf_migration_interrupt_enable",2),
         B("vf_mse",3), B("ari_capable_hierarchy",4), B("vf_10bit_tag_requester_enable",5) >>)
  \o R("",10, << B("sriov_status.vf_migration_status",0), N("initial_vfs",16,16), N("total_vfs",32,16), N("num_vfs",48,16),
         N("function_dependency_link",64,8), N("first_vf_offset",80,16), N("vf_stride",96,16), N("vf_device_id",128,16) >>)
  \o R("",28, << N("page_sizes.supported",0,32), N("page_sizes.system",32,32) >>)
(* vf_migration_state_array_offset: BIR in bits 2:0, the rest an 8-byte    *)
(* aligned offset.                                                         *)

(*----------------------------- 0012h Multicast ----------------------------*)
MulticastL == R("multicast_capability.",4, << N("mc_max_group",0,6), N("mc_window_size_requested",8,6), B("mc_ecrc_regeneration_supported",15) >>)
  \o R("multicast_control.",6, << N("mc_num_group",0,6), B("mc_enable",15) >>)
  \o << N("mc_base_address.mc_index_position",64,6), N("mc_receive",128,64), N("mc_block_all",192,64), N("mc_block_untranslated",256,64) >>
Multicast(c) ==
  IF Len(c) < 40 THEN EDataErr("Multicast", 48)
  ELSE Ok(Fields(c,0,"",MulticastL)
    \o Kv("mc_base_address.mc_base_address", NumStr(<<0,0,0>> \o Nibbles(c,64+12,52)))
    \o (IF Len(c) < 48 THEN None("mc_overlay_bar")
        ELSE Tag("mc_overlay_bar","Some:McOverlayBar") \o Fields(c,320,"mc_overlay_bar.", << N("mc_overlay_size",0,6) >>)
             \o Kv("mc_overlay_bar.mc_overlay_bar", NumStr(<<0, 4*Bits(c,326,2)>> \o Nibbles(c,328,56)))))

(*----------------------- 0013h Page Request Interface ---------------------*)
PriL == R("page_request_control.",4, << B("enable",0), B("reset",1) >>)
  \o R("page_request_status.",6, << B("response_failure",0), B("unexpected_page_request_group_index",1), B("stopped",8),
         B("prg_response_pasid_required",15) >>)
  \o << N("outstanding_page_request_capacity",64,32), N("outstanding_page_request_allocation",96,32) >>

(*------------------ 0018h LTR, 001Bh PASID, 001Ch LNR ---------------------*)
LatencyReg == << N("value",0,10), N("scale",10,3) >>
(* Latency in ns: the value times 32^scale; scales above 5 are not         *)
(* permitted and read as no value.                                         *)
LatencyNs(v, s) == IF s > 5 THEN "0" ELSE IF 5*s <= 20 THEN Str(v * Pow2(5*s))
                   ELSE NumStr(<<0,0,0,0,0,0, (v % 8)*2, (v \div 8) % 16, v \div 128>>)
Ltr(c) == IF Len(c) < 8 THEN EDataErr("Latency Tolerance Reporting", 4)
  ELSE Ok(Fields(c,0,"", R("max_snoop_latency.",4,LatencyReg) \o R("max_no_snoop_latency.",6,LatencyReg))
     \o Kv("fn_snoop_ns", LatencyNs(Bits(c,32,10),Bits(c,42,3))) \o Kv("fn_no_snoop_ns", LatencyNs(Bits(c,48,10),Bits(c,58,3)))
     \* re-encoding a latency gives back its defined bits
     \o Kv("fn_snoop_raw", U(c,32,13)) \o Kv("fn_no_snoop_raw", U(c,48,13)))
PasidL == R("pacid_capability.",4, << B("execute_permission_supported",1), B("privileged_mode_supported",2), N("max_pasid_width",8,5) >>)
  \o R("pacid_control.",6, << B("pasid_enable",0), B("execute_permission_enable",1), B("privileged_mode_enable",2) >>)
LnrL == R("lnr_capability.",4, << B("lnr_64_supported",0), B("lnr_128_supported",1), N("lnr_registration_max",8,5) >>)
  \o R("lnr_control.",6, << B("lnr_enable",0), B("lnr_cls",1), N("lnr_registration_limit",8,5) >>)

(*------------------------- 001Eh L1 PM Substates --------------------------*)
PowerOnScaleE == En(<<"Time2us","Time10us","Time100us","Reserved">>,"?")
L1pmL == R("l1_pm_substates_capabilities.",4, << B("pci_pm_l1_2_supported",0), B("pci_pm_l1_1_supported",1),
       B("aspm_l1_2_supported",2), B("aspm_l1_1_supported",3), B("l1_pm_substates_supported",4),
       N("port_common_mode_restore_time",8,8), E("port_t_power_on.scale",16,2,PowerOnScaleE), N("port_t_power_on.value",19,5) >>)
  \o R("l1_pm_substates_control_1.",8, << B("pci_pm_l1_2_enable",0), B("pci_pm_l1_1_enable",1), B("aspm_l1_2_enable",2),
       B("aspm_l1_1_enable",3), N("common_mode_restore_time",8,8), N("ltr_l1_2_threshold.value",16,10), N("ltr_l1_2_threshold.scale",29,3) >>)
  \o R("l1_pm_substates_control_2.",12, << E("t_power_on.scale",0,2,PowerOnScaleE), N("t_power_on.value",3,5) >>)
PowerOnUs(s, v) == IF s = 3 THEN "None" ELSE "Some(" \o Str(v * (CASE s = 0 -> 2 [] s = 1 -> 10 [] OTHER -> 100)) \o ")"
(* The raw registers that the decoded values stand for: reserved bits 0.   *)
Keep(c, o, spans) ==      \* nibbles of the dword at byte o, keeping only bits in spans
  [k \in 1..8 |-> LET bit(i) == IF \E s \in spans : 4*(k-1)+i >= s[1] /\ 4*(k-1)+i < s[1]+s[2]
                                  THEN Bits(c,8*o+4*(k-1)+i,1) * Pow2(i) ELSE 0
                  IN bit(0)+bit(1)+bit(2)+bit(3)]
L1pm(c) == IF Len(c) < 16 THEN EDataErr("L1 PM Substates", 12)
  ELSE Ok(Fields(c,0,"",L1pmL)
    \o Kv("fn_port_t_power_on_us", PowerOnUs(Bits(c,48,2),Bits(c,51,5))) \o Kv("fn_t_power_on_us", PowerOnUs(Bits(c,96,2),Bits(c,99,5)))
    \o Kv("fn_threshold_ns", LatencyNs(Bits(c,80,10),Bits(c,93,3)))
    \o Kv("fn_raw_cap", NumStr(Keep(c,4,{<<0,5>>,<<8,8>>,<<16,2>>,<<19,5>>})))
    \o Kv("fn_raw_ctl1", NumStr(Keep(c,8,{<<0,4>>,<<8,8>>,<<16,10>>,<<29,3>>})))
    \o Kv("fn_raw_ctl2", NumStr(Keep(c,12,{<<0,2>>,<<3,5>>}))))

(*------------------ 001Fh PTM, 0020h M-PHY, 0021h FRS ---------------------*)
PtmL == R("ptm_capability.",4, << B("ptm_requester_capable",0), B("ptm_responder_capable",1), B("ptm_root_capable",2), N("local_clock_granularity",8,8) >>)
  \o R("ptm_control.",8, << B("ptm_enable",0), B("root_select",1), N("effective_granularity",8,8) >>)
LaneWidths == <<"x1","x2","x4","x8","x12","x16","x32">>
LaneFlags(pre, bit) == [k \in 1..7 |-> B(pre \o LaneWidths[k], bit+k-1)]
LaneWidthE == En([k \in 1..256 |-> LinkWidthName(k-1)], "?")
MphyL == R("mpcie_capabilities.",4, << B("mpcie_link_speed_capability.hs_g1",0), B("mpcie_link_speed_capability.hs_g2",1),
      B("configuration_software_supported",15) >> \o LaneFlags("maximum_tx_lane_width_capability.",16)
      \o LaneFlags("maximum_rx_lane_width_capability.",24))
  \o R("mpcie_control.",8, << B("mpcie_target_link_speed_control.hs_g1",0), B("mpcie_target_link_speed_control.hs_g2",1) >>)
  \o R("mpcie_status.",12, << B("mpcie_current_link_speed_status.hs_g1",0), B("mpcie_current_link_speed_status.hs_g2",1),
      B("mpcie_configuration_software_status",15), E("tx_lane_width_status",16,8,LaneWidthE), E("rx_lane_width_status",24,8,LaneWidthE) >>)
  \o << N("mpcie_lane_error_status",128,32) >>
  \o R("mpcie_phy_control_address.",20, << N("lower_addr",0,8), E("phy_location",25,3,En(<<"LocalPhy","RemotePhy">>,"Reserved")),
      B("read",30), B("config",31) >>)
  \o R("mpcie_phy_control_data.",24, << N("phy_register_data",0,8), B("phy_control_error",29), B("rrap_abort_a",30), B("phy_control_pending",31) >>)
Mphy(c) == IF Len(c) < 28 THEN EDataErr("M-PCIe", 28)
  ELSE Ok(Fields(c,0,"",MphyL)
    \o Kv("mpcie_phy_control_address.upper_addr", Str(Bits(c,160+16,5) + 32*Bits(c,160+24,1))))
FrsL == R("frs_queuing_capability.",4, << N("frs_queue_max_depth",0,12), N("frs_interrupt_message_number",16,5) >>)
  \o R("frs_queuing_status.",8, << B("frs_message_received",0), B("frs_message_overflow",1) >>)
  \o << B("frs_queuing_control.frs_interrupt_enable",80) >>
  \o R("frs_message_queue.",12, << N("frs_message_queue_function_id",0,16), N("frs_message_queue_reason",16,4), N("frs_message_queue_depth",20,12) >>)

(*-------------------- 0022h Readiness Time Reporting ----------------------*)
ReadyTime == << N("value",0,9), N("scale",9,3) >>
ReadyNs(c, bit, path) == LET v == Bits(c,bit,9)  s == Bits(c,bit+9,3)
  IN IF s > 5 THEN << >> ELSE Kv(path, LatencyNs(v, s))
Readiness(c) == IF Len(c) < 12 THEN EDataErr("Readiness Time Reporting", 12)
  ELSE Ok(Fields(c,32,"reset_time.",ReadyTime) \o Fields(c,44,"dl_up_time.",ReadyTime) \o Kv("valid",Bl(c,63))
     \o Fields(c,64,"flr_time.",ReadyTime) \o Fields(c,76,"d3hot_to_d0_time.",ReadyTime)
     \o ReadyNs(c,32,"fn_reset_ns") \o ReadyNs(c,44,"fn_dl_up_ns") \o ReadyNs(c,64,"fn_flr_ns") \o ReadyNs(c,76,"fn_d3hot_ns"))
=============================================================================
