-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Laws the specification's own definitions obey, checked over their whole *)
(* finite domains: one state per case.                                     *)
(*   a register's fields do not overlap and have distinct names;           *)
(*   an enumeration that can be encoded back names every value once;       *)
(*   the windows of a bridge have exactly one reading;                     *)
(*   a structure is decoded from its published size on, and not before;    *)
(*   bytes beyond those a structure needs never make it undecodable;       *)
(*   speeds and widths are ordered by rank, equal only to themselves;      *)
(*   scaled quantities are strictly increasing where they are defined.     *)
(***************************************************************************)
EXTENDS Conv, FiniteSets

Layouts == <<
  << CommandReg, 16 >>, << StatusReg, 16 >>, << BridgeControlReg, 16 >>, << CardbusControlReg, 16 >>, << BistReg, 8 >>,
  << PmcReg, 16 >>, << PmcsrReg, 32 >>, << AgpStatus, 32 >>, << AgpCommand, 32 >>, << AgpIsochStatus, 32 >>, << MsiControl, 16 >>,
  << EccReg, 32 >>, << PciXCommand, 16 >>, << PciXStatus, 32 >>, << PciXSecondary, 16 >>, << PciXBridgeStatus, 32 >>, << FpbCaps, 32 >>,
  << HtLinkControl, 16 >>, << HtLinkConfig, 16 >>, << HtFreqCap, 16 >>, << HtError, 8 >>, << HtRev, 8 >>, << HtFeatLow, 16 >>,
  << HtFeatHigh, 16 >>, << HtErrHandling, 16 >>,
  << PeDeviceCaps, 32 >>, << PeDeviceControl, 16 >>, << PeDeviceStatus, 16 >>, << PeLinkCaps, 32 >>, << PeLinkControl, 16 >>,
  << PeLinkStatus, 16 >>, << PeSlotCaps, 32 >>, << PeSlotControl, 16 >>, << PeSlotStatus, 16 >>, << PeDeviceCaps2, 32 >>,
  << PeDeviceControl2, 16 >>, << PeLinkControl2, 16 >>, << PeLinkStatus2, 16 >>,
  << UncorrErr, 32 >>, << CorrErr, 32 >>, << AerCtl, 32 >>, << RootErrCmd, 32 >>, << RootErrStatus, 32 >>, << ErrSource, 32 >>,
  << DpcCap, 16 >>, << DpcCtl, 16 >>, << DpcStatus, 16 >>, << RpPio, 32 >>, << LaneReg, 16 >>, << CxlCap, 16 >>, << CxlCtl, 16 >>,
  << DsnL, 96 >>, << PbDataReg, 32 >>, << RcLinkCaps, 32 >>, << RcilcL, 96 >>, << RcrbL, 160 >>, << AriL, 64 >>, << AtsL, 64 >>,
  << MulticastL, 384 >>, << PriL, 128 >>, << LatencyReg, 16 >>, << PasidL, 64 >>, << LnrL, 64 >>, << L1pmL, 128 >>, << PtmL, 96 >>,
  << MphyL, 224 >>, << FrsL, 128 >>, << ReadyTime, 12 >>, << PortCap2, 32 >>, << PortCtl, 16 >> >>
EnumWidth == [DataSelect |-> 4, LinkSpeed |-> 4, LinkWidth |-> 6, CompletionTimeoutRanges |-> 4, TphCompleter |-> 2, LnSystemCls |-> 2,
  Obff |-> 2, MaxEndEndTlpPrefixes |-> 2, EmergencyPowerReduction |-> 2, CompletionTimeoutValue |-> 4, ObffEnable |-> 2, CalCycle |-> 3,
  DataRateSupport |-> 3, DataRateEnabled |-> 3, PortTPowerOnScale |-> 2, FunctionArbitrationSelect |-> 3, PortArbitrationSelect |-> 3,
  ElementType |-> 8, InterruptPin |-> 8, EndEndTlpPrefixBlocking |-> 1, CacheSfCoverage |-> 5]

(* structures of one fixed size: capability or extended, id, published     *)
(* name, bytes of header which that size leaves out                        *)
Sized == << << "cap", 13, "BridgeSubsystemVendorId", 2 >>, << "cap", 17, "MsiX", 2 >>, << "cap", 21, "FlatteningPortalBridge", 2 >>,
  << "cap", 5, "MSI_32BIT", 2 >>, << "cap", 8, "SlaveOrPrimaryInterface", 2 >>,
  << "ecap", 1, "Aer.common", 4 >>, << "ecap", 6, "RootComplexInternalLinkControl", 4 >>, << "ecap", 7, "Rcec", 4 >>,
  << "ecap", 10, "RootComplexRegisterBlockHeader", 0 >>, << "ecap", 12, "ConfigurationAccessCorrelation", 0 >>,
  << "ecap", 16, "SingleRootIoVirtualization", 4 >>, << "ecap", 28, "LnRequester", 0 >>,
  << "ecap", 32, "PciExpressOverMphy", 0 >>, << "ecap", 33, "FrsQueuing", 0 >>, << "ecap", 34, "ReadinessTimeReporting", 0 >> >>

(* kinds of structure with bytes to fill them: capability or extended, id, *)
(* what the bytes are made from                                            *)
Kinds == { <<"cap", i, f>> : i \in 0..23, f \in 0..5 } \cup { <<"ecap", i, f>> : i \in 0..48, f \in 0..5 }
Filled(f, n) == [i \in 1..n |-> CASE f = 0 -> 0 [] f = 1 -> 255 [] f = 2 -> i % 256 [] f = 3 -> (37 * i) % 256 [] f = 4 -> IF i % 4 = 2 THEN 1 ELSE 0
                                  [] OTHER -> (i * i + 11) % 256]
BodyOk(k, n) == LET b == Filled(k[3], n) IN
  (IF k[1] = "cap" THEN CapBody(k[2], From0(b, 2), [i \in 1..64 |-> 0], FALSE) ELSE EcapBody(k[2], b)).ok

VARIABLE c
(* a group of cases, then each case in it                                  *)
Init == c \in ({ <<"group", "layout", i>> : i \in 1..Len(Layouts) }
          \cup { <<"group", "enum", n>> : n \in DOMAIN ConvEnums }
          \cup { <<"group", "io", b>> : b \in 0..255 }
          \cup { <<"group", "size", i>> : i \in 1..Len(Sized) }
          \cup { <<"group", "more", k>> : k \in Kinds }
          \cup { <<"group", "rank", n>> : n \in {"LinkSpeed", "LinkWidth"} }
          \cup { <<"group", "latency", s>> : s \in 0..5 })
Cases(g) == CASE g = "layout" -> 0..0 [] g = "enum" -> 0..255 [] g = "io" -> 0..255 [] g = "size" -> 0..80
              [] g = "more" -> 4..120 [] g = "rank" -> 0..63 [] OTHER -> 0..1023
Next == c[1] = "group" /\ \E v \in Cases(c[2]) : c' = << c[2], c[3], v >>
Spec == Init /\ [][Next]_c

FieldBits(f) == f[2]..(f[2] + f[3] - 1)
Disjoint == c[1] = "layout" =>
   LET L == Layouts[c[2]][1]
       w == Layouts[c[2]][2]
   IN \A i \in 1..Len(L) : /\ FieldBits(L[i]) \subseteq 0..(w - 1)
                           /\ \A j \in (i + 1)..Len(L) : FieldBits(L[i]) \cap FieldBits(L[j]) = {} /\ L[i][1] # L[j][1]
Invertible == (c[1] = "enum" /\ c[3] < Pow2(EnumWidth[c[2]])) =>
   \A u \in 0..(Pow2(EnumWidth[c[2]]) - 1) :
      u # c[3] => EnumStr(ConvEnums[c[2]], u) # EnumStr(ConvEnums[c[2]], c[3])
(* a bridge header whose I/O window registers are c[2] and c[3]            *)
WinHeader == [i \in 1..64 |-> CASE i = 15 -> 1 [] i = 29 -> c[2] [] i = 30 -> c[3] [] i = 49 -> 52 [] i = 50 -> 18 [] i = 51 -> 120 [] i = 52 -> 86
                                [] OTHER -> 0]
WindowRead == c[1] = "io" =>
   LET r == IoWindow(WinHeader, "w")
       same == c[2] % 16 = c[3] % 16
   IN /\ (r[1][2] = "Malformed") = ~same
      /\ (r[1][2] = "NotImplemented") = (c[2] = 0 /\ c[3] = 0)
      /\ (r[1][2] = "IoAddr32") = (same /\ c[2] % 16 = 1)
      /\ r[1][2] \in {"Malformed", "Reserved"} => r[2] = << "w.base", Str(c[2]) >> /\ r[3] = << "w.limit", Str(c[3]) >>
      /\ r[1][2] = "IoAddr16" => r[2][2] = Str(256 * c[2]) /\ r[3][2] = Str(256 * c[3])
NoHeader == [i \in 1..64 |-> 0]
PublishedSize == c[1] = "size" =>
   LET k == Sized[c[2]]
       b == [i \in 1..c[3] |-> 0]
   IN c[3] >= (IF k[1] = "cap" THEN 2 ELSE 4) =>
      (IF k[1] = "cap" THEN CapBody(k[2], From0(b, 2), NoHeader, FALSE) ELSE EcapBody(k[2], b)).ok = (c[3] >= SizeOf(k[3]) + k[4])
MoreIsFine == c[1] = "more" => (BodyOk(c[2], c[3]) => BodyOk(c[2], c[3] + 1))
RankedAlike == c[1] = "rank" =>
   \A w \in 0..63 :
      LET o == OrderOf(c[2], c[3], w)
          p == OrderOf(c[2], w, c[3])
      IN /\ (c[3] = w) = (o = Kv("fits", "true") \o Kv("order", "Equal"))
         /\ Len(o) = Len(p)
         /\ Len(o) = 2 /\ c[3] < w => o[2][2] = "Less" /\ p[2][2] = "Greater"
LatencyInjective == c[1] = "latency" /\ c[3] > 0 => LatencyNs(c[3], c[2]) # LatencyNs(c[3] - 1, c[2])
=============================================================================
