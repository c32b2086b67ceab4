------------------------------- MODULE CapsHt -------------------------------
(***************************************************************************)
(* Capability 08h HyperTransport.  b: bytes after the capability header.   *)
(***************************************************************************)
EXTENDS CapsBridge

HtName == <<"SlaveOrPrimaryInterface","","","","HostOrSecondaryInterface","","","",
  "Switch","ReservedHost","","","","","","","InterruptDiscoveryAndConfiguration","RevisionId",
  "UnitIdClumping","ExtendedConfigurationSpaceAccess","AddressMapping","MsiMapping","DirectRoute",
  "VCSet","RetryMode","X86Encoding","Gen3","FunctionLevelExtension","PowerManagement",
  "HighNodeCount">>
WidthE == En(<<"Width8bits","Width16bits","","Width32bits","Width2bits","Width4bits","","NotConnected">>,"Reserved")
HtLinkControl == << B("source_id_enable",0), B("crc_flood_enable",1), B("crc_start_test",2),
  B("crc_force_error",3), B("link_failure",4), B("initialization_complete",5), B("end_of_chain",6),
  B("transmitter_off",7), N("crc_error",8,4), B("isochronous_flow_control_enable",12),
  B("ldtstop_tristate_enable",13), B("extended_ctl_time",14), B("enable_64_bit_addressing",15) >>
HtLinkConfig == << E("max_link_width_in",0,3,WidthE), B("doubleword_flow_control_in",3),
  E("max_link_width_out",4,3,WidthE), B("doubleword_flow_control_out",7), E("link_width_in",8,3,WidthE),
  B("doubleword_flow_control_in_enable",11), E("link_width_out",12,3,WidthE),
  B("doubleword_flow_control_out_enable",15) >>
HtRates == <<"200","300","400","500","600","800","1000","1200","1400","1600","1800","2000","2200","2400","2600">>
HtFreqCap == [k \in 1..15 |-> B("supports_" \o HtRates[k] \o "mhz", k-1)] \o << B("supports_vendor_specific",15) >>
HtFreqE == En([k \in 1..15 |-> "Rate" \o HtRates[k] \o "MHz"] \o <<"VendorSpecific">>, "?")
HtFreqExtE == En(<<"","Rate2800MHz","Rate3000MHz","Rate3200MHz">>, "Reserved")
(* The frequency selected by code f, without and with the extension bit.   *)
HtFreq(path, f) == Kv("fn_" \o path, EnumStr(HtFreqE,f))
   \o Kv("fn_" \o path \o "_ext", IF f \in 1..3 THEN HtFreqExtE.v[f+1] ELSE "Reserved(" \o Str(16+f) \o ")")
HtError == << B("protocol_error",4), B("overflow_error",5), B("end_of_chain_error",6), B("ctl_timeout",7) >>
HtRev == << N("minor",0,5), N("major",5,3) >>
HtFeatLow == << B("isochronous_flow_control_mode",0), B("ldtstop",1), B("crc_test_mode",2),
  B("extended_ctl_time_required",3), B("qword_addressing",4), B("unitid_reorder_disable",5),
  B("source_identification_extension",6) >>
HtFeatHigh == << B("extended_register_set",8), B("upstream_configuration_enable",9) >>
HtErrHandling == << B("protocol_error_flood_enable",0), B("overflow_error_flood_enable",1),
  B("protocol_error_fatal_enable",2), B("overflow_error_fatal_enable",3), B("end_of_chain_error_fatal_enable",4),
  B("response_error_fatal_enable",5), B("crc_error_fatal_enable",6), B("system_error_fatal_enable",7),
  B("chain_fail",8), B("response_error",9), B("protocol_error_nonfatal_enable",10),
  B("overflow_error_nonfatal_enable",11), B("end_of_chain_error_nonfatal_enable",12),
  B("response_error_nonfatal_enable",13), B("crc_error_nonfatal_enable",14), B("system_error_nonfatal_enable",15) >>

Hypertransport(b) ==
  IF Len(b) < 2 THEN Err("CapabilityType")
  ELSE LET t == Bits(b,11,5)
           kind == IF t <= 3 THEN "SlaveOrPrimaryInterface" ELSE IF t <= 7 THEN "HostOrSecondaryInterface"
                   ELSE IF t < Len(HtName) THEN HtName[t+1] ELSE ""
           code == Kv("fn_type", Str(IF t <= 3 THEN 0 ELSE IF t <= 7 THEN 4 ELSE t))
       IN CASE kind = "SlaveOrPrimaryInterface" ->
               IF Len(b) < 26 THEN Err("SlaveOrPrimaryInterface") ELSE
               Ok(Tag("$","Hypertransport:SlaveOrPrimaryInterface")
                 \o Fields(b,0,"command.", << N("base_unitid",0,5), N("unit_count",5,5), B("master_host",10),
                      B("default_direction",11), B("drop_on_uninitialized_link",12) >>)
                 \o Fields(b,16,"link_control_0.",HtLinkControl) \o Fields(b,32,"link_config_0.",HtLinkConfig)
                 \o Fields(b,48,"link_control_1.",HtLinkControl) \o Fields(b,64,"link_config_1.",HtLinkConfig)
                 \o Fields(b,80,"revision_id.",HtRev) \o Fields(b,88,"", << N("link_freq_0",0,4) >>) \o HtFreq("link_freq_0",Bits(b,88,4))
                 \o Fields(b,88,"link_error_0.",HtError) \o Fields(b,96,"link_freq_cap_0.",HtFreqCap)
                 \o Fields(b,112,"feature.",HtFeatLow)
                 \o Kv("feature.extended_register_set","false") \o Kv("feature.upstream_configuration_enable","false")
                 \o Fields(b,120,"", << N("link_freq_1",0,4) >>) \o HtFreq("link_freq_1",Bits(b,120,4))
                 \o Fields(b,120,"link_error_1.",HtError) \o Fields(b,128,"link_freq_cap_1.",HtFreqCap)
                 \o Fields(b,144,"", << N("enumeration_scratchpad",0,16), N("mem_base_upper",32,8),
                      N("mem_limit_upper",40,8), N("bus_number",48,8) >>)
                 \o Fields(b,160,"error_handling.",HtErrHandling) \o code)
            [] kind = "HostOrSecondaryInterface" ->
               IF Len(b) < 22 THEN Err("HostOrSecondaryInterface") ELSE
               Ok(Tag("$","Hypertransport:HostOrSecondaryInterface")
                 \o Fields(b,0,"command.", << B("warm_reset",0), B("double_ended",1), N("device_number",2,5),
                      B("chain_side",7), B("host_hide",8), B("act_as_slave",10),
                      B("host_inbound_end_of_chain_error",11), B("drop_on_uninitialized_link",12) >>)
                 \o Fields(b,16,"link_control.",HtLinkControl) \o Fields(b,32,"link_config.",HtLinkConfig)
                 \o Fields(b,48,"revision_id.",HtRev) \o Fields(b,56,"", << N("link_freq",0,4) >>) \o HtFreq("link_freq",Bits(b,56,4))
                 \o Fields(b,56,"link_error.",HtError) \o Fields(b,64,"link_freq_cap.",HtFreqCap)
                 \o Fields(b,80,"feature.",HtFeatLow \o HtFeatHigh)
                 \o Fields(b,112,"", << N("enumeration_scratchpad",0,16), N("mem_base_upper",32,8), N("mem_limit_upper",40,8) >>)
                 \o Fields(b,128,"error_handling.",HtErrHandling) \o code)
            [] kind = "RevisionId" -> Ok(Tag("$","Hypertransport:RevisionId") \o Fields(b,0,"",HtRev) \o Kv("fn_raw",U(b,0,8)) \o code)
            [] kind = "MsiMapping" ->
               IF Len(b) < 10 THEN Err("MsiMapping") ELSE
               Ok(Tag("$","Hypertransport:MsiMapping") \o Fields(b,0,"", << B("enabled",0), B("fixed",1),
                    N("base_address_lower",16,32), N("base_address_upper",48,32) >>)
                 \* the 64-bit mapping window base is 1 MB aligned
                 \o Kv("fn_base_address", NumStr(<<0,0,0,0,0>> \o Nibbles(b,36,12) \o Nibbles(b,48,32))) \o code)
            [] kind = "" -> Ok(Tag("$","Hypertransport:Reserved(" \o Str(t) \o ")") \o code)
            [] OTHER -> Ok(Tag("$","Hypertransport:" \o kind) \o code)
=============================================================================
