-------------------------------- MODULE Conv --------------------------------
(***************************************************************************)
(* Public conversions between one small register value and its meaning.    *)
(* A call is a record e with e.k naming the function, e.n a type, e.v and  *)
(* e.s numbers, e.b bytes.  For a register type the result is the decoded  *)
(* meaning ("dec") and the value it encodes back to ("back").              *)
(***************************************************************************)
EXTENDS Walker, ClassCode

(* Types whose every encoding has exactly one meaning, encoded back to     *)
(* the very same value.                                                    *)
ConvEnums == [
  DataSelect |-> DataSelectE, LinkSpeed |-> SpeedE, LinkWidth |-> LinkWidthE,
  CompletionTimeoutRanges |-> CtRangesE, TphCompleter |-> TphCompleterE, LnSystemCls |-> LnClsE,
  Obff |-> ObffE, MaxEndEndTlpPrefixes |-> MaxPrefixE, EmergencyPowerReduction |-> EprE,
  CompletionTimeoutValue |-> CtValueE, ObffEnable |-> ObffEnE, CalCycle |-> CalE,
  DataRateSupport |-> RateSupE, DataRateEnabled |-> RateEnE, PortTPowerOnScale |-> PowerOnScaleE,
  FunctionArbitrationSelect |-> PatSelE, PortArbitrationSelect |-> PatSelE, ElementType |-> ElementE,
  InterruptPin |-> PinE, EndEndTlpPrefixBlocking |-> PrefixBlockE, CacheSfCoverage |-> SfCovE ]

WordBytes(v) == << v % 256, (v \div 256) % 256 >>
Conversion(n, v) ==
  CASE n = "BuiltInSelfTest" -> Ok(Fields(<< v >>, 0, "dec.", BistReg) \o Kv("back", Str((v % 16) + 64 * (v \div 64))))
    [] n = "RevisionId" -> Ok(Fields(<< v >>, 0, "dec.", HtRev) \o Kv("back", Str(v)))
    [] n = "MaxLatency" -> Ok(Fields(WordBytes(v), 0, "dec.", LatencyReg) \o Kv("back", Str(v % 8192)))
    [] OTHER -> Ok(Kv("dec", EnumStr(ConvEnums[n], v)) \o Kv("back", Str(v)))

HtFrequency(v) == IF v < 16 THEN EnumStr(HtFreqE, v)
                  ELSE IF v - 16 \in 1..3 THEN HtFreqExtE.v[v - 15] ELSE "Reserved(" \o Str(v) \o ")"

BarSizes == << "1MB","2MB","4MB","8MB","16MB","32MB","64MB","128MB","256MB","512MB",
  "1GB","2GB","4GB","8GB","16GB","32GB","64GB","128GB","256GB","512GB",
  "1TB","2TB","4TB","8TB","16TB","32TB","64TB","128TB","256TB","512TB",
  "1PB","2PB","4PB","8PB","16PB","32PB","64PB","128PB","256PB","512PB","1EB","2EB","4EB","8EB" >>
Constants ==
  << << "timeout_A", "50..10000" >>, << "timeout_B", "10000..250000" >>,
     << "timeout_C", "250000..4000000" >>, << "timeout_D", "4000000..64000000" >> >>
  \o [i \in 1..Len(BarSizes) |-> << "bar_size_" \o Str(i-1), BarSizes[i] >>]

(* Published sizes and offsets, in bytes.  Capabilities: without their      *)
(* two-byte header; extended ones: as published, some with the header.     *)
ConfigSpace == 4096
SizeTable == <<
  << "DDR_OFFSET", 64 >>, << "ECS_OFFSET", 256 >>, << "DDR_LENGTH", 256 - 64 >>, << "ECS_LENGTH", ConfigSpace - 256 >>,
  << "Header", 64 >>, << "Header.common", 16 >>, << "Capability.header", 2 >>,
  << "ECH_BYTES", 4 >>, << "ExtendedCapabilityHeader", 4 >>, << "ExtendedCapability.header", 4 >>,
  << "BridgeSubsystemVendorId", 8 - 2 >>, << "Virtio", 16 - 3 >>, << "PciExpress", 60 - 2 >>,
  << "FlatteningPortalBridge", 36 - 2 >>, << "MsiX", 12 - 2 >>,
  << "SlaveOrPrimaryInterface", 28 - 2 >>, << "HostOrSecondaryInterface", 24 - 2 >>, << "RevisionId", 1 >>, << "MsiMapping", 12 - 2 >>,
  << "MSI_32BIT", 2 + 4 + 4 >>, << "MSI_64BIT", 2 + 8 + 4 >>, << "MSI_32BIT_PVM", 2 + 4 + 4 + 8 >>, << "MSI_64BIT_PVM", 2 + 8 + 4 + 8 >>,
  << "MessageControl", 2 >>,
  << "PcieDvsecForCxlDevice", 56 - 10 >>, << "CxlCapability", 2 >>, << "CxlControl", 2 >>, << "CxlStatus", 2 >>, << "CxlControl2", 2 >>,
  << "CxlStatus2", 2 >>, << "CxlLock", 2 >>, << "CxlCapability2", 2 >>, << "CxlRangeSize", 8 >>, << "CxlRangeBase", 8 >>,
  << "Dvsec.min", 10 >>, << "Dvsec.max", 4095 - 256 >>, << "FrsQueuing", 16 >>, << "FrsQueuingCapability", 4 >>, << "FrsQueuingStatus", 2 >>,
  << "FrsQueuingControl", 2 >>, << "FrsMessageQueue", 4 >>, << "MfvcChannel", 12 >>, << "VcChannel", 12 >>,
  << "PciExpressOverMphy", 28 >>, << "ConfigurationAccessCorrelation", 8 >>, << "ResizableBar.entry", 8 >>, << "Multicast", 48 >>,
  << "LnRequester", 8 >>, << "SingleRootIoVirtualization", 64 - 4 >>, << "ECL_OFFSET", 12 >>,
  << "Aer.common", 44 - 4 >>, << "Aer.root", 56 - 4 >>, << "Aer.full", 72 - 4 >>, << "Aer.header_log", 16 >>, << "Aer.prefix_log", 16 >>,
  << "PmuxProtocolArrayEntry", 4 >>, << "RootComplexInternalLinkControl", 12 - 4 >>, << "ElementSelfDescription", 4 >>,
  << "LinkEntry", 16 >>, << "LinkEntry.dwords", 4 >>, << "LinkEntries.first", 16 - 4 >>, << "ReadinessTimeReporting", 12 >>,
  << "RootComplexRegisterBlockHeader", 20 >>, << "Rcec", 8 - 4 >> >>
SizeOf(n) == LET i == CHOOSE i \in 1..Len(SizeTable) : SizeTable[i][1] = n IN SizeTable[i][2]

(* Names of the 256 class codes of a base class and sub-class.             *)
WithIf == { k \div 256 : k \in Keys(IfNames) }
RECURSIVE IfList(_,_,_)
IfList(bs, i, acc) ==
  IF i > 255 THEN acc
  ELSE IfList(bs, i + 1, IF 256*bs + i \in DOMAIN IfF THEN acc \o Str(i) \o "=" \o IfF[256*bs + i] \o ";" ELSE acc)
ClassNames(base, sub) ==
  << << "base_name", IF base \in DOMAIN BaseF THEN BaseF[base] ELSE "Reserved" >>,
     << "sub_name", OptName(SubF, 256*base + sub) >>,
     << "interfaces", IF 256*base + sub \in WithIf THEN IfList(256*base + sub, 0, "") ELSE "" >> >>

EchL == << N("extended_capability_id",0,16), N("capability_version",16,4), N("next_capability_offset",20,12) >>

(* Register values with an order: link speeds and link widths, the faster  *)
(* or wider one being the greater; 0 for values that name no speed, width. *)
(* A speed is a place in the supported link speeds vector, which has seven. *)
Rank(n, v) == CASE n = "LinkSpeed" -> IF v \in 1..7 THEN v ELSE 0
                [] OTHER -> CASE v = 1 -> 1 [] v = 2 -> 2 [] v = 4 -> 3 [] v = 8 -> 4 [] v = 12 -> 5 [] v = 16 -> 6 [] v = 32 -> 7 [] OTHER -> 0
OrderOf(n, v, w) ==
  Kv("fits", "true")
  \o (IF v = w THEN Kv("order", "Equal")
      ELSE IF Rank(n, v) = 0 \/ Rank(n, w) = 0 THEN << >>
      ELSE Kv("order", IF Rank(n, v) < Rank(n, w) THEN "Less" ELSE "Greater"))
(* What a type defaults to: the meaning of registers that are all zero.    *)
DefaultOf(n) ==
  CASE n = "BuiltInSelfTest" -> Fields(Zeros(1), 0, "dec.", BistReg)
    [] n = "InterruptPin" -> Kv("dec", EnumStr(PinE, 0))
    [] n = "ExpansionRom" -> RomAt(Zeros(4), 0, "dec.")
    [] n = "IoAccessAddressRange" -> CbWindow(Zeros(8), 0, "dec")
    [] n = "Command" -> Fields(Zeros(2), 0, "dec.", CommandReg)
    [] n = "BridgeControl" -> Fields(Zeros(2), 0, "dec.", BridgeControlReg)
    [] n = "CardbusBridgeControl" -> Fields(Zeros(2), 0, "dec.", CardbusControlReg)
    [] n = "ClassCode" -> << << "dec.interface", "0" >>, << "dec.sub", "0" >>, << "dec.base", "0" >> >>
    [] n = "MessageSignaledInterrups" -> LET f == SelectSeq(Msi(Zeros(22)).f, LAMBDA p : ~Starts(p[1], "fn_"))
                                       IN [i \in 1..Len(f) |-> << "dec." \o f[i][1], f[i][2] >>]
    [] n = "MessageControl" -> Fields(Zeros(2), 0, "dec.", MsiControl)
    [] n = "MultipleMessage" -> Kv("dec", EnumStr(New("MultipleMessage"), 0))
    [] n = "MessageAddress" -> Kv("dec", "Dword(0)")
    [] n = "LinkWidth" -> Kv("dec", EnumStr(WidthE, 0))
    [] n = "LinkFrequency" -> Kv("dec", HtFrequency(0))

(* "it": an iterator over e.b; "eqit": two of them compared, after e.i and *)
(* e.j calls; "eqs": two structures, or headers, compared.                 *)
OnlyEq(s) == IF s = {"true"} THEN Ok(Kv("eq", "true")) ELSE IF s = {"false"} THEN Ok(Kv("eq", "false")) ELSE Ok(<< >>)
Pure(e, rs) ==
  CASE e.k = "conv"     -> Conversion(e.n, e.v)
    [] e.k = "len"      -> Ok(Kv("port", Str(PatLen(e.v))) \o Kv("function", Str(PatLen(e.v))) \o Kv("vc", Str(VatLen(e.v))))
    [] e.k = "htfreq"   -> Ok(Kv("dec", HtFrequency(e.v)))
    \* values from F0h on stand for limits above 250 W that this version does not define
    [] e.k = "watts"    -> Ok(Kv("same", "true") \o IF e.v < 240 \/ e.s # 0 THEN Kv("mw", Str(PowerMw(e.v, e.s))) ELSE << >>)
    [] e.k = "linkaddr" -> Ok(LinkAddr(e.b, 0, "link_address", e.v) \o Kv("raw", U(e.b,0,32) \o " " \o U(e.b,32,32)))
    [] e.k = "classraw" -> Ok(SubSeq(ClassMeaning(e.b), 1, 3))
    [] e.k = "ord"      -> Ok(OrderOf(e.n, e.v, e.s))
    [] e.k = "default"  -> Ok(DefaultOf(e.n))
    [] e.k = "const"    -> Ok(Constants)
    [] e.k = "size"     -> Ok(Kv("size", Str(SizeOf(e.n))))
    \* a header or structure decoded on its own
    [] e.k = "ahdr"     -> DecodeHeader(e.b)
    [] e.k = "acap"     -> CapBody(e.v, From0(e.b, 2), e.b2, rs)
    [] e.k = "aecap"    -> EcapBody(e.v, e.b)
    [] e.k = "apart"    -> Ok(Kv("alone", "same"))     \* a walk among others reports what it reports alone
    [] e.k = "ech"      -> Ok(Fields(e.b, 0, "", EchL))
    [] e.k = "class"    -> Ok(ClassNames(e.v, e.s))
    [] e.k = "it"       -> Ok(IterPairs(IterElems(e.n, e.b, e.v, rs)) \o Shown(e.n, e.b, e.v) \o Kv("iter", "ok"))
    [] e.k = "eqit"     -> OnlyEq(MayEqual(e, rs))
    [] e.k = "eqw"      -> LET at(dv, n) == TLCEval(After(e.w, dv, rs, Fresh(e.w, dv), n))
                           IN IF Len(e.b.h) < 64 \/ Len(e.b2.h) < 64 THEN DecodeHeader(IF Len(e.b.h) < 64 THEN e.b.h ELSE e.b2.h)
                              ELSE OnlyEq(WalksEqual(e.w, e.b, at(e.b, e.i), e.b2, at(e.b2, e.j), rs))
    \* what two walks report next, structure, error or end, compared
    [] e.k = "eqr"      -> LET at(dv, n) == TLCEval(After(e.w, dv, rs, Fresh(e.w, dv), n))
                           IN IF Len(e.b.h) < 64 \/ Len(e.b2.h) < 64 THEN DecodeHeader(IF Len(e.b.h) < 64 THEN e.b.h ELSE e.b2.h)
                              ELSE OnlyEq(ReportsEqual(e.w, e.b, at(e.b, e.i), e.b2, at(e.b2, e.j), rs))
    [] e.k = "eqs"      -> OnlyEq(IF e.b = e.b2 THEN {"true"} ELSE IF ~SameMeaning(e, rs) THEN {"false"} ELSE {"true", "false"})
    [] OTHER -> Err("no such function")
=============================================================================
