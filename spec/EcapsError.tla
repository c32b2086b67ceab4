----------------------------- MODULE EcapsError -----------------------------
(***************************************************************************)
(* Error and isolation related extended capabilities: 0001h Advanced Error *)
(* Reporting, 000Dh Access Control Services, 001Dh Downstream Port         *)
(* Containment.  c: the whole structure from its header on.                *)
(***************************************************************************)
EXTENDS EcapsSimple

Pre(p, r) == IF r.ok THEN r ELSE Err(p \o r.e)

DwordList(path, name, c, o, n) ==
  Tag(path, name) \o Kv(path \o ".#", Str(n))
  \o [k \in 1..n |-> << path \o "." \o Str(k-1), U(c, 8*(o+4*(k-1)), 32) >>]

(*--------------------------------- AER ------------------------------------*)
UncorrErr == << B("link_training_error",0), B("data_link_protocol_error_status",4), B("surprise_down_error_status",5),
  B("poisoned_tlp_received_status",12), B("flow_control_protocol_error_status",13), B("completion_timeout_status",14),
  B("completer_abort_status",15), B("unexpected_completion_status",16), B("receiver_overflow_status",17),
  B("malformed_tlp_status",18), B("ecrc_error_status",19), B("unsupported_request_error_status",20),
  B("acs_violation_status",21), B("uncorrectable_internal_error_status",22), B("mc_blocked_tlp_status",23),
  B("atomicop_egress_blocked_status",24), B("tlp_prefix_blocked_error_status",25), B("poisoned_tlp_egress_blocked_status",26) >>
CorrErr == << B("receiver_error_status",0), B("bad_tlp_status",6), B("bad_dllp_status",7), B("replay_num_rollover_status",8),
  B("replay_timer_timeout_status",12), B("advisory_non_fatal_error_status",13), B("corrected_internal_error_status",14),
  B("header_log_overflow_status",15) >>
AerCtl == << N("first_error_pointer",0,5), B("ecrc_generation_capable",5), B("ecrc_generation_enable",6),
  B("ecrc_check_capable",7), B("ecrc_check_enable",8), B("multiple_header_recording_capable",9),
  B("multiple_header_recording_enable",10), B("tlp_prefix_log_present",11),
  B("completion_timeout_prefix_or_header_log_capable",12) >>
RootErrCmd == << B("correctable_error_reporting_enable",0), B("non_fatal_error_reporting_enable",1), B("fatal_error_reporting_enable",2) >>
RootErrStatus == << B("err_cor_received",0), B("multiple_err_cor_received",1), B("err_fatal_or_nonfatal_received",2),
  B("multiple_err_fatal_or_nonfatal_received",3), B("first_uncorrectable_fatal",4), B("non_fatal_error_messages_received",5),
  B("fatal_error_messages_received",6), N("advanced_error_interrupt_message_number",27,5) >>
ErrSource == << N("err_cor_source_identification",0,16), N("err_fatal_or_nonfatal_source_identification",16,16) >>
AerBody(c) ==
  IF Len(c) < 44 THEN Err("can't read common registres")
  ELSE LET prefix == IsSet(c, 8*24+11)
           root == Len(c) >= 56
       IN IF prefix /\ Len(c) < 72 THEN Err("can't read TLP Prefix Log")
          ELSE Ok(Fields(c,32,"uncorrectable_error_status.",UncorrErr) \o Fields(c,64,"uncorrectable_error_mask.",UncorrErr)
            \o Fields(c,96,"uncorrectable_error_severity.",UncorrErr) \o Fields(c,128,"correctable_error_status.",CorrErr)
            \o Fields(c,160,"correctable_error_mask.",CorrErr)
            \o Fields(c,192,"advanced_error_capabilities_and_control.",AerCtl)
            \o DwordList("header_log","HeaderLog",c,28,4)
            \o PeOpt("root_error_command",root,"RootErrorCommand",Fields(c,8*44,"root_error_command.",RootErrCmd))
            \o PeOpt("root_error_status",root,"RootErrorStatus",Fields(c,8*48,"root_error_status.",RootErrStatus))
            \o PeOpt("error_source_identification",root,"ErrorSourceIdentification",Fields(c,8*52,"error_source_identification.",ErrSource))
            \o (IF prefix THEN DwordList("tlp_prefix_log","Some:TlpPrefixLog",c,56,4) ELSE None("tlp_prefix_log")))
Aer(c) == Pre("Advanced Error Reporting error: ", AerBody(c))

(*--------------------------------- ACS ------------------------------------*)
AcsNames == <<"acs_source_validation","acs_translation_blocking","acs_p2p_request_redirect","acs_p2p_completion_redirect",
  "acs_upstream_forwarding","acs_p2p_egress_control","acs_direct_translated_p2p">>
AcsCap == [k \in 1..7 |-> B("acs_capability." \o AcsNames[k], k-1)] \o << N("acs_capability.egress_control_vector_size",8,8) >>
AcsCtl == [k \in 1..7 |-> B("acs_control." \o AcsNames[k] \o "_enable", k-1)]
(* The egress control vector: one bit per port, `size` bits, in dwords     *)
(* after the control register; 0 stands for 256 ports when P2P egress      *)
(* control is implemented.                                                 *)
RECURSIVE BitString(_,_,_,_)
BitString(c, bit, n, acc) == IF n = 0 THEN acc ELSE BitString(c, bit+1, n-1, acc \o (IF IsSet(c,bit) THEN "1" ELSE "0"))
AcsVector(c) ==
  LET sz == Bits(c,40,8)
      n == IF sz # 0 THEN sz ELSE IF IsSet(c,37) THEN 256 ELSE 0
      bytes == 4*((n+31) \div 32)
  IN IF Len(c) < 8+bytes THEN "" ELSE BitString(c,64,n,"")
Acs(c) == IF Len(c) < 8 THEN EDataErr("Access Control Services", 4)
  ELSE Ok(Fields(c,32,"",AcsCap) \o Fields(c,48,"",AcsCtl) \o Kv("fn_ecv", AcsVector(c)))

(*--------------------------------- DPC ------------------------------------*)
DpcCap == << N("dpc_interrupt_message_number",0,5), B("rp_extensions_for_dpc",5), B("poisoned_tlp_egress_blocking_supported",6),
  B("dpc_software_triggering_supported",7), N("rp_pio_log_size",8,4), B("dl_active_err_cor_signaling_supported",12) >>
DpcCtl == << E("dpc_trigger_enable",0,2,En(<<"Disabled","ErrFatalMessage","ErrNonFatalMessage","Reserved">>,"?")),
  B("dpc_completion_control",2), B("dpc_interrupt_enable",3), B("dpc_err_cor_enable",4),
  B("poisoned_tlp_egress_blocking_enable",5), B("dpc_software_trigger",6), B("dl_active_err_cor_enable",7) >>
DpcStatus == << B("dpc_trigger_status",0), B("dpc_interrupt_status",3), B("dpc_rp_busy",4), N("rp_pio_first_error_pointer",8,5) >>
DpcReason(r, x) == IF r < 3 THEN <<"UnmaskedUncorrectableError","ReceivingAnErrNonFatal","ReceivingAnErrFatal">>[r+1]
  ELSE IF x < 2 THEN <<"RpPioError","DpcSoftwareTriggerBit">>[x+1] ELSE "Reserved(" \o Str(x) \o ")"
RpPio == << B("cfg_ur_cpl",0), B("cfg_ca_cpl",1), B("cfg_cto",2), B("io_ur_cpl",8), B("io_ca_cpl",9), B("io_cto",10),
  B("mem_ur_cpl",16), B("mem_ca_cpl",17), B("mem_cto",18) >>
DpcBody(c) ==
  IF Len(c) < 12 THEN Err("can't read manadatory registers (8 bytes)")
  ELSE LET rp == IsSet(c,37)
           size == Bits(c,40,4)
           words == IF size > 5 THEN Min(size-5, 4) ELSE 0
           base == Fields(c,32,"dpc_capability.",DpcCap) \o Fields(c,48,"dpc_control.",DpcCtl)
             \o Fields(c,64,"dpc_status.",DpcStatus) \o Kv("dpc_status.dpc_trigger_reason",DpcReason(Bits(c,65,2),Bits(c,69,2)))
             \o Kv("fn_trigger_reason", Str(Bits(c,65,2)))
             \o Kv("fn_trigger_reason_ext", Str(IF Bits(c,65,2) = 3 THEN Bits(c,69,2) ELSE 0))
             \o Fields(c,80,"", << N("dpc_error_source_id",0,16) >>)
           r == "rp_extensions."
       IN IF ~rp THEN Ok(base \o None("rp_extensions"))
          ELSE IF Len(c) < 48 THEN Err("can't read RP Extensions registers (36 bytes)")
          ELSE IF size >= 5 /\ Len(c) < 52 THEN Err("can't read RP PIO ImpSpec Log Register (4 bytes)")
          ELSE IF Len(c) < 52 + 4*words /\ words > 0
               THEN Err("can't read RP PIO TLP Prefix Log Register word#: " \o Str((Len(c) - 52) \div 4))
          ELSE Ok(base \o Tag("rp_extensions","Some:RpExtensions")
            \o Fields(c,96,r \o "rp_pio_status.",RpPio) \o Fields(c,128,r \o "rp_pio_mask.",RpPio)
            \o Fields(c,160,r \o "rp_pio_severity.",RpPio) \o Fields(c,192,r \o "rp_pio_syserr.",RpPio)
            \o Fields(c,224,r \o "rp_pio_exception.",RpPio) \o DwordList(r \o "rp_pio_header_log","HeaderLog",c,32,4)
            \o (IF size >= 5 THEN SomeU(r \o "rp_pio_impspec_log",c,8*48,32) ELSE None(r \o "rp_pio_impspec_log"))
            \o (IF size <= 5 THEN None(r \o "rp_pio_tlp_prefix_log")
                ELSE Tag(r \o "rp_pio_tlp_prefix_log","Some:TlpPrefixLog") \o Kv(r \o "rp_pio_tlp_prefix_log.#","4")
                  \o [k \in 1..4 |-> << r \o "rp_pio_tlp_prefix_log." \o Str(k-1),
                        IF k <= words THEN U(c,8*(52+4*(k-1)),32) ELSE "0" >>]))
Dpc(c) == Pre("Downstream Port Containment error: ", DpcBody(c))
=============================================================================
