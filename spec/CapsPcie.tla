------------------------------ MODULE CapsPcie ------------------------------
(***************************************************************************)
(* Capability 10h PCI Express.  b: bytes after the capability header.      *)
(* Register offsets (in b): capabilities 0, device 2/6/8, link 10/14/16,   *)
(* slot 18/22/24, root 26/28/30, device 2 34/38/40, link 2 42/46/48,       *)
(* slot 2 50/54/56.  Which of them exist depends on the port type and the  *)
(* structure version.                                                      *)
(***************************************************************************)
EXTENDS CapsHt

MaxSizeE == En(<<"B128","B256","B512","B1024","B2048","B4096","Reserved0","Reserved1">>,"?")
PwrScaleE == En(<<"1.0","0.1","0.01","0.001">>,"?")
SpeedE == En(<<"","Rate2GTps","Rate5GTps","Rate8GTps","Rate16GTps","Rate32GTps","Rate64GTps","RateRsvdp">>,"Reserved")
LinkWidthName(v) == CASE v = 1 -> "X1" [] v = 2 -> "X2" [] v = 4 -> "X4" [] v = 8 -> "X8" [] v = 12 -> "X12"
  [] v = 16 -> "X16" [] v = 32 -> "X32" [] OTHER -> "Reserved(" \o Str(v) \o ")"
LinkWidthE == En([k \in 1..64 |-> LinkWidthName(k-1)], "?")
AspmE == En(<<"NoAspm","L0s","L1","L0sAndL1">>,"?")

PeDeviceCaps == << E("max_payload_size_supported",0,3,MaxSizeE),
  E("phantom_functions_supported",3,2,En(<<"NoBits","MostSignificantBit","TwoMostSignificantBits","AllBits">>,"?")),
  E("extended_tag_field_supported",5,1,En(<<"Five","Eight">>,"?")),
  E("endpoint_l0s_acceptable_latency",6,3,En(<<"Max64ns","Max128ns","Max256ns","Max512ns","Max1us","Max2us","Max4us","NoLimit">>,"?")),
  E("endpoint_l1_acceptable_latency",9,3,En(<<"Max1us","Max2us","Max4us","Max8us","Max16us","Max32us","Max64us","NoLimit">>,"?")),
  B("attention_button_present",12), B("attention_indicator_present",13), B("power_indicator_present",14),
  B("role_based_error_reporting",15), N("captured_slot_power_limit.value",18,8),
  E("captured_slot_power_limit.scale",26,2,PwrScaleE), B("function_level_reset_capability",28) >>
PeDeviceControl == << B("correctable_error_reporting_enable",0), B("non_fatal_error_reporting_enable",1),
  B("fatal_error_reporting_enable",2), B("unsupported_request_reporting_enable",3),
  B("enable_relaxed_ordering",4), E("max_payload_size",5,3,MaxSizeE), B("extended_tag_field_enable",8),
  B("phantom_functions_enable",9), B("aux_power_pm_enable",10), B("enable_no_snoop",11),
  E("max_read_request_size",12,3,MaxSizeE), B("bcre_or_flreset",15) >>
PeDeviceStatus == << B("correctable_error_detected",0), B("non_fatal_error_detected",1), B("fatal_error_detected",2),
  B("unsupported_request_detected",3), B("aux_power_detected",4), B("transactions_pending",5) >>
PeLinkCaps == << E("max_link_speed",0,4,SpeedE), E("maximum_link_width",4,6,LinkWidthE),
  E("active_state_power_management_support",10,2,AspmE),
  E("l0s_exit_latency",12,3,En(<<"Lt64ns","Ge64nsAndLt128ns","Ge128nsAndLt256ns","Ge256nsAndLt512ns",
     "Ge512nsAndLt1us","Ge1usAndLt2us","Ge2usAndLt4us","Gt4ns">>,"?")),
  E("l1_exit_latency",15,3,En(<<"Lt1us","Ge1usAndLt2us","Ge2usAndLt4us","Ge4usAndLt8us","Ge8usAndLt16us",
     "Ge16usAndLt32us","Ge32usAndLt64us","Gt64ns">>,"?")),
  B("clock_power_management",18), B("surprise_down_error_reporting_capable",19),
  B("data_link_layer_link_active_reporting_capable",20), B("link_bandwidth_notification_capability",21),
  B("aspm_optionality_compliance",22), N("port_number",24,8) >>
PeLinkControl == << E("active_state_power_management_control",0,2,AspmE),
  E("read_completion_boundary",3,1,En(<<"B64","B128">>,"?")), B("link_disable",4), B("retrain_link",5),
  B("common_clock_configuration",6), B("extended_synch",7), B("enable_clock_power_management",8),
  B("hardware_autonomous_width_disable",9), B("link_bandwidth_management_interrupt_enable",10),
  B("link_autonomous_bandwidth_interrupt_enable",11) >>
PeLinkStatus == << E("current_link_speed",0,4,SpeedE), E("negotiated_link_width",4,6,LinkWidthE),
  B("link_training_error",10), B("link_training",11), B("slot_clock_configuration",12),
  B("data_link_layer_link_active",13), B("link_bandwidth_management_status",14),
  B("link_autonomous_bandwidth_status",15) >>
PeSlotCaps == << B("attention_button_present",0), B("power_controller_present",1), B("mrl_sensor_present",2),
  B("attention_indicator_present",3), B("power_indicator_present",4), B("hot_plug_surprise",5),
  B("hot_plug_capable",6), N("slot_power_limit.value",7,8), E("slot_power_limit.scale",15,2,PwrScaleE),
  B("electromechanical_interlock_present",17), B("no_command_completed_support",18), N("physical_slot_number",19,13) >>
IndicatorE == En(<<"Reserved","On","Blink","Off">>,"?")
PeSlotControl == << B("attention_button_pressed_enable",0), B("power_fault_detected_enable",1),
  B("mrl_sensor_changed_enable",2), B("presence_detect_changed_enable",3), B("command_completed_interrupt_enable",4),
  B("hot_plug_interrupt_enable",5), E("attention_indicator_control",6,2,IndicatorE),
  E("power_indicator_control",8,2,IndicatorE), B("power_controller_control",10),
  B("electromechanical_interlock_control",11), B("data_link_layer_state_changed_enable",12) >>
PeSlotStatus == << B("attention_button_pressed",0), B("power_fault_detected",1), B("mrl_sensor_changed",2),
  B("presence_detect_changed",3), B("command_completed",4), B("mrl_sensor_state",5), B("presence_detect_state",6),
  B("electromechanical_interlock_status",7), B("data_link_layer_state_changed",8) >>
PeRoot == << B("control.system_error_on_correctable_error_enable",0), B("control.system_error_on_non_fatal_error_enable",1),
  B("control.system_error_on_fatal_error_enable",2), B("control.pme_interrupt_enable",3),
  B("control.crs_software_visibility_enable",4), B("capabilities.crs_software_visibility",16),
  N("status.pme_requester_id",32,16), B("status.pme_status",48), B("status.pme_pending",49) >>
CtRangesE == En(<<"NotSupported","RangeA","RangeB","RangesAB","","","RangesBC","RangesABC","","","","","","",
  "RangesBCD","RangesABCD">>,"Reserved")
TphCompleterE == En(<<"NotSupported","Tph","Reserved","TphAndExtendedTph">>,"?")
LnClsE == En(<<"NotSupported","Cachelines64Byte","Cachelines128Byte","Reserved">>,"?")
ObffE == En(<<"NotSupported","Message","Wake","WakeAndMessage">>,"?")
MaxPrefixE == En(<<"Max4","Max1","Max2","Max3">>,"?")
EprE == En(<<"NotSupported","DeviceSpecific","FormFactorOrDeviceSpecific","Reserved">>,"?")
PeDeviceCaps2 == << E("completion_timeout_ranges_supported",0,4,CtRangesE),
  B("completion_timeout_disable_supported",4), B("ari_forwarding_supported",5), B("atomic_op_routing_supported",6),
  B("u32_atomicop_completer_supported",7), B("u64_atomicop_completer_supported",8), B("u128_cas_completer_supported",9),
  B("no_ro_enabled_pr_pr_passing",10), B("ltr_mechanism_supported",11), E("tph_completer_supported",12,2,TphCompleterE),
  E("ln_system_cls",14,2,LnClsE), B("support_10bit_tag_completer",16), B("support_10bit_tag_requester",17),
  E("obff_supported",18,2,ObffE), B("extended_fmt_field_supported",20), B("end_end_tlp_prefix_supported",21),
  E("max_end_end_tlp_prefixes",22,2,MaxPrefixE), E("emergency_power_reduction_supported",24,2,EprE),
  B("emergency_power_reduction_initialization_required",26), B("frs_supported",31) >>
CtValueE == En(<<"DefaultRange50usTo50ms","RangeA50usTo100us","RangeA1msTo10ms","","","RangeB16msTo55mss",
  "RangeB65msTo210ms","","","RangeC260msTo900ms","RangeC1000msTo3500ms","","","RangeD4sTo13s","RangeD17sTo64s">>,"Reserved")
ObffEnE == En(<<"Disabled","MessageSignalingA","MessageSignalingB","WakeSignaling">>,"?")
PrefixBlockE == En(<<"ForwardingEnabled","ForwardingBlocked">>,"?")
PeDeviceControl2 == << E("completion_timeout_value",0,4,CtValueE), B("completion_timeout_disable",4),
  B("ari_forwarding_enable",5), B("atomic_op_requester_enable",6), B("atomic_op_egress_blocking",7),
  B("ido_request_enable",8), B("ido_completion_enable",9), B("ltr_mechanism_enable",10),
  B("emergency_power_reduction_request",11), B("enable_10bit_tag_requester",12), E("obff_enable",13,2,ObffEnE),
  E("end_end_tlp_prefix_blocking",15,1,PrefixBlockE) >>
SpeedVector(pre, bit) == << B(pre \o "speed_2_5_gtps",bit), B(pre \o "speed_5_0_gtps",bit+1), B(pre \o "speed_8_0_gtps",bit+2),
  B(pre \o "speed_16_0_gtps",bit+3), B(pre \o "speed_32_0_gtps",bit+4), B(pre \o "speed_64_0_gtps",bit+5), B(pre \o "reserved",bit+6) >>
PeLinkCaps2 == SpeedVector("supported_link_speeds_vector.",1) \o << B("crosslink_supported",8) >>
  \o SpeedVector("lower_skp_os_generation_supported_speeds_vector.",9)
  \o SpeedVector("lower_skp_os_reception_supported_speeds_vector.",16)
  \o << B("retimer_presence_detect_supported",23), B("two_retimers_presence_detect_supported",24), B("drs_supported",31) >>
DeEmphE == En(<<"Minus6dB","Minus3_5dB">>,"?")
PeLinkControl2 == << E("target_link_speed",0,4,SpeedE), B("enter_compliance",4), B("hardware_autonomous_speed_disable",5),
  E("selectable_de_emphasis",6,1,DeEmphE), E("transmit_margin",7,3,New("TransmitMargin")), B("enter_modified_compliance",10),
  B("compliance_sos",11), E("compliance_preset_or_de_emphasis",12,4,New("CompliancePresetOrDeEmphasis")) >>
PeLinkStatus2 == << E("current_de_emphasis_level",0,1,DeEmphE), B("equalization_complete",1),
  B("equalization_phase_1_successful",2), B("equalization_phase_2_successful",3), B("equalization_phase_3_successful",4),
  B("link_equalization_request",5), B("retimer_presence_detected",6), B("two_retimers_presence_detected",7),
  E("crosslink_resolution",8,2,En(<<"NotSupported","UpstreamPort","DownstreamPort","NotCompleted">>,"?")),
  E("downstream_component_presence",12,3,En(<<"DownNotDetermined","DownNotPresent","DownPresent","",
     "UpPresent","UpPresentAndDrsReceived">>,"Reserved")), B("drs_message_received",15) >>

(* Port types and the registers each one has.                              *)
PeTypeName(t) == CASE t = 0 -> "Endpoint" [] t = 1 -> "LegacyEndpoint" [] t = 9 -> "RootComplexIntegratedEndpoint"
  [] t = 10 -> "RootComplexEventCollector" [] t = 4 -> "RootPort" [] t = 5 -> "UpstreamPort"
  [] t = 6 -> "DownstreamPort" [] t = 7 -> "PcieToPciBridge" [] t = 8 -> "PciToPcieBridge" [] OTHER -> "Reserved"
PeHasLink(t) == t \notin {9, 10}
PeHasSlot(t) == t \in {4, 6, 8} \/ PeTypeName(t) = "Reserved"
PeNeedsRoot(t) == t \in {4, 10}

PeOpt(path, present, name, fields) == IF present THEN Tag(path, "Some:" \o name) \o fields ELSE None(path)
(* Milliwatts of a power limit value v with scale s (v <= EFh: above that  *)
(* the encoding is not linear).                                            *)
PowerMw(v, s) == v * (CASE s = 0 -> 1000 [] s = 1 -> 100 [] s = 2 -> 10 [] OTHER -> 1)
PciExpress(b) ==
  IF Len(b) < 26 THEN Err("can't read mandatory (0x1a) bytes from slice")
  ELSE LET t == Bits(b,4,4)
           v2 == Bits(b,0,4) > 1
           root == Len(b) >= 34
           dt == "device_type."
           rootFs(pre) == Fields(b,208,pre,PeRoot)
           link2Fs == PeOpt(dt \o "link_2", v2 /\ Len(b) >= 50, "Link2",
             Fields(b,336,dt \o "link_2.capabilities.",PeLinkCaps2) \o Fields(b,368,dt \o "link_2.control.",PeLinkControl2)
             \o Fields(b,384,dt \o "link_2.status.",PeLinkStatus2))
       IN IF PeNeedsRoot(t) /\ ~root THEN Err("can't read root bytes from slice")
          ELSE Ok(Fields(b,0,"", << N("version",0,4), B("slot_implemented",8), N("interrupt_message_number",9,5),
                        B("tcs_routing_support",14) >>)
            \o Kv("device_type", PeTypeName(t))
            \o Fields(b,16,"device.capabilities.",PeDeviceCaps) \o Fields(b,48,"device.control.",PeDeviceControl)
            \o Fields(b,64,"device.status.",PeDeviceStatus)
            \o (IF PeHasLink(t) THEN Fields(b,80,dt \o "link.capabilities.",PeLinkCaps)
                   \o Fields(b,112,dt \o "link.control.",PeLinkControl)
                   \o Fields(b,128,dt \o "link.status.",PeLinkStatus) \o link2Fs ELSE << >>)
            \o (IF PeHasSlot(t) THEN Fields(b,144,dt \o "slot.capabilities.",PeSlotCaps)
                   \o Fields(b,176,dt \o "slot.control.",PeSlotControl) \o Fields(b,192,dt \o "slot.status.",PeSlotStatus)
                   \o PeOpt(dt \o "slot_2", v2 /\ Len(b) >= 58, "Slot2", << >>) ELSE << >>)
            \o (IF PeNeedsRoot(t) THEN rootFs(dt \o "root.") ELSE << >>)
            \o (IF PeTypeName(t) = "Reserved"
                THEN PeOpt(dt \o "root", root, "Root", IF root THEN rootFs(dt \o "root.") ELSE << >>) \o Kv(dt \o "id", Str(t))
                ELSE << >>)
            \o PeOpt("device_2", v2 /\ Len(b) >= 42, "Device2",
                 Fields(b,272,"device_2.capabilities.",PeDeviceCaps2) \o Fields(b,304,"device_2.control.",PeDeviceControl2))
            \o Kv("fn_is_endpoint", BoolStr(t \in {0,1,9})) \o Kv("fn_is_root", BoolStr(t \in {4,10}))
            \o Kv("fn_is_downstream_port", BoolStr(t \in {4,6,8}))
            \o (IF Bits(b,34,8) < 240 \/ Bits(b,42,2) # 0 THEN Kv("fn_captured_mw", Str(PowerMw(Bits(b,34,8),Bits(b,42,2)))) ELSE << >>))
=============================================================================
