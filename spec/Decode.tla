------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* Which decoder applies to which capability, and one step of each of the  *)
(* two capability-list walks.                                              *)
(***************************************************************************)
EXTENDS EcapsList

Hex2(v) == HexDigit[(v \div 16) + 1] \o HexDigit[(v % 16) + 1]
Hex3(v) == HexDigit[(v \div 256) + 1] \o Hex2(v % 256)

(*------------------------- capabilities (40h..FFh) ------------------------*)
CapKind(id, bridge) ==
  CASE id = 7 /\ bridge -> "PciXBridge"
    [] id <= 21 /\ ~(id = 7 /\ bridge) ->
       << "NullCapability","PowerManagementInterface","AcceleratedGraphicsPort","VitalProductData","SlotIdentification",
          "MessageSignaledInterrups","CompactPciHotSwap","PciX","Hypertransport","VendorSpecific","DebugPort",
          "CompactPciResourceControl","PciHotPlug","BridgeSubsystemVendorId","Agp8x","SecureDevice","PciExpress","MsiX",
          "Sata","AdvancedFeatures","EnhancedAllocation","FlatteningPortalBridge" >>[id+1]
    [] OTHER -> "Reserved(" \o Str(id) \o ")"
(* b: the bytes after the capability's header; h: the device's header      *)
(* region; rs: entries of Enhanced Allocation are sized by their content.  *)
CapBody(id, b, h, rs) ==
  LET bridge == IsBridgeHeader(h)
      data(r) == IF r.ok THEN r ELSE Err(r.e \o " data read error")
  IN CASE id = 1  -> data(PowerManagement(b))
       [] id = 2  -> data(Agp(b))
       [] id = 3  -> data(Vpd(b))
       [] id = 4  -> data(SlotId(b))
       [] id = 5  -> Pre("MSI error: ", Msi(b))
       [] id = 7  -> IF bridge THEN Pre("PCI-X Bridge error: ", PciXBridge(b)) ELSE Pre("PCI-X error: ", PciX(b))
       [] id = 8  -> Pre("HyperTransport: ", Hypertransport(b))
       [] id = 9  -> Pre("Vendor Specific error: ", VendorSpecific(b, Bits(h,0,16), Bits(h,16,16)))
       [] id = 10 -> data(DebugPort(b))
       [] id = 13 -> data(BridgeSsid(b))
       [] id = 16 -> Pre("PCI Express error: ", PciExpress(b))
       [] id = 17 -> data(MsiX(b))
       [] id = 18 -> data(Sata(b))
       [] id = 19 -> data(AdvFeatures(b))
       [] id = 20 -> Pre("Enhanced Allocation error: ", EnhancedAllocation(b, bridge, rs))
       [] id = 21 -> data(Fpb(b))
       [] OTHER   -> Ok(<< >>)

(***************************************************************************)
(* One step of the walk of the capability list.                            *)
(* d: the readable bytes of the device dependent region (from 40h on);     *)
(* p: the pointer to follow; seen: the structures already reported.        *)
(* The result has t (what the caller sees: "end", "err" or "item"), the    *)
(* next pointer and where and what the structure is (at = 0 with an error: *)
(* there is no structure, the link itself is at fault).  Following an      *)
(* already reported structure ends the walk: a list is finite even if its  *)
(* links form a cycle.                                                     *)
(***************************************************************************)
CapStep(d, h, rs, p, seen) ==
  IF p = 0 \/ p \in seen THEN [t |-> "end", p |-> 0, at |-> 0]
  ELSE IF p < 64 THEN [t |-> "err", p |-> 0, at |-> 0, e |-> "capabilities pointer should be greater than 0x40"]
  ELSE LET o == p - 64
       IN IF Len(d) < o + 2 THEN [t |-> "err", p |-> 0, at |-> 0, e |-> "[" \o Hex2(p) \o "] capability header is not available"]
          ELSE LET id == d[o+1]
                   next == 4 * (d[o+2] \div 4)       \* the two low bits are reserved
                   r == CapBody(id, From0(d, o+2), h, rs)
               IN IF r.ok THEN [t |-> "item", p |-> next, at |-> p, kind |-> CapKind(id, IsBridgeHeader(h)), f |-> r.f]
                  ELSE [t |-> "err", p |-> next, at |-> p, e |-> "[" \o Hex2(p) \o "] " \o r.e]

(*------------------------ extended capabilities ---------------------------*)
EcapUnit == << "DataLinkFeature","PhysicalLayer16GTps","LaneMarginingAtTheReceiver","HierarchyId","NativePcieEnclosureManagement",
  "PhysicalLayer32GTps","AlternateProtocol","SystemFirmwareIntermediary",
  "ShadowFunctions","DataObjectExchange","Device3","IntegrityAndDataEncryption","PhysicalLayer64GTps","FlitLogging","FlitPerformanceMeasurement","FlitErrorInjection" >>     \* 25h..34h
EcapKind(id) ==
  IF id <= 36 THEN
   << "Null","AdvancedErrorReporting","VirtualChannel","DeviceSerialNumber","PowerBudgeting","RootComplexLinkDeclaration",
      "RootComplexInternalLinkControl","RootComplexEventCollectorEndpointAssociation","MultifunctionVirtualChannel",
      "VirtualChannelMfvcPresent","RootComplexRegisterBlockHeader","VendorSpecificExtendedCapability","ConfigurationAccessCorrelation",
      "AccessControlServices","AlternativeRoutingIdInterpretation","AddressTranslationServices","SingleRootIoVirtualization",
      "MultiRootIoVirtualization","Multicast","PageRequestInterface","ReservedForAmd","ResizableBar","DynamicPowerAllocation",
      "TphRequester","LatencyToleranceReporting","SecondaryPciExpress","ProtocolMultiplexing","ProcessAddressSpaceId","LnRequester",
      "DownstreamPortContainment","L1PmSubstates","PrecisionTimeMeasurement","PciExpressOverMphy","FrsQueuing",
      "ReadinessTimeReporting","DesignatedVendorSpecificExtendedCapability","VfResizableBar" >>[id+1]
  ELSE IF id <= 52 THEN EcapUnit[id-36]
  ELSE "Reserved(" \o Str(id) \o ")"
EcapBody(id, c) ==
  CASE id = 1  -> Aer(c)
    [] id \in {2, 9} -> VirtualChannel(c)
    [] id = 3  -> Fixed(c, 12, "Device Serial Number", 8, DsnL)
    [] id = 4  -> PowerBudget(c)
    [] id = 5  -> Rcld(c)
    [] id = 6  -> Fixed(c, 12, "Root Complex Internal Link Control", 8, RcilcL)
    [] id = 7  -> Fixed(c, 8, "Root Complex Event Collector Endpoint Association", 4, RcecL)
    [] id = 8  -> Mfvc(c)
    [] id = 10 -> Fixed(c, 20, "RCRB Header", 20, RcrbL)
    [] id = 11 -> Vsec(c)
    [] id = 12 -> Fixed(c, 8, "Configuration Access Correlation", 8, CacL)
    [] id = 13 -> Acs(c)
    [] id = 14 -> Fixed(c, 8, "Alternative Routing-ID Interpretation", 4, AriL)
    [] id = 15 -> Fixed(c, 8, "Address Translation Services", 4, AtsL)
    [] id = 16 -> Sriov(c)
    [] id = 18 -> Multicast(c)
    [] id = 19 -> Fixed(c, 16, "Page Request Interface", 12, PriL)
    [] id = 21 -> Rebar(c)
    [] id = 22 -> Dpa(c)
    [] id = 23 -> Tph(c)
    [] id = 24 -> Ltr(c)
    [] id = 25 -> SecPcie(c)
    [] id = 26 -> Pmux(c)
    [] id = 27 -> Fixed(c, 8, "Process Address Space ID", 4, PasidL)
    [] id = 28 -> Fixed(c, 8, "LN Requester", 8, LnrL)
    [] id = 29 -> Dpc(c)
    [] id = 30 -> L1pm(c)
    [] id = 31 -> Fixed(c, 12, "Precision Time Measurement", 8, PtmL)
    [] id = 32 -> Mphy(c)
    [] id = 33 -> Fixed(c, 16, "FRS Queuing", 16, FrsL)
    [] id = 34 -> Readiness(c)
    [] id = 35 -> Dvsec(c)
    [] id = 36 -> VfRebar(c)
    [] OTHER   -> Ok(<< >>)

(* One step of the walk of the extended capability list; x: the readable   *)
(* bytes from 100h on.  An all-zero header ends the list.                  *)
EcapStep(x, p, seen) ==
  IF p = 0 \/ p \in seen THEN [t |-> "end", p |-> 0, at |-> 0]
  ELSE IF p < 256 THEN [t |-> "err", p |-> 0, at |-> 0, e |-> "extended capability offset should be greater than 0xFF"]
  ELSE LET o == p - 256
       IN IF Len(x) < o + 4 THEN [t |-> "err", p |-> 0, at |-> 0, e |-> "[" \o Hex3(p) \o "] extended capability header shorter than u32"]
          ELSE IF \A k \in 1..4 : x[o+k] = 0 THEN [t |-> "end", p |-> 0, at |-> 0]
          ELSE LET id == Bits(x, 8*o, 16)
                   next == 4 * Bits(x, 8*o+22, 10)
                   r == EcapBody(id, From0(x, o))
               IN IF r.ok THEN [t |-> "item", p |-> next, at |-> p, kind |-> EcapKind(id), id |-> id,
                                version |-> Bits(x, 8*o+16, 4), f |-> r.f]
                  ELSE [t |-> "err", p |-> next, at |-> p, e |-> "[" \o Hex3(p) \o "] " \o r.e]
=============================================================================
