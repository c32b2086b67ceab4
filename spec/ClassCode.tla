------------------------------ MODULE ClassCode ------------------------------
(***************************************************************************)
(* Names of the class codes (the PCI ID database's class list): a base     *)
(* class always has a name; sub-class and programming interface have one   *)
(* only where the list assigns it.                                         *)
(***************************************************************************)
EXTENDS Bits

(* base class *)
BaseNames == << <<0, "Unclassified device">>,
  <<1, "Mass storage controller">>,
  <<2, "Network controller">>,
  <<3, "Display controller">>,
  <<4, "Multimedia controller">>,
  <<5, "Memory controller">>,
  <<6, "Bridge">>,
  <<7, "Communication controller">>,
  <<8, "Generic system peripheral">>,
  <<9, "Input device controller">>,
  <<10, "Docking station">>,
  <<11, "Processor">>,
  <<12, "Serial bus controller">>,
  <<13, "Wireless controller">>,
  <<14, "Intelligent controller">>,
  <<15, "Satellite communications controller">>,
  <<16, "Encryption controller">>,
  <<17, "Signal processing controller">>,
  <<18, "Processing accelerators">>,
  <<19, "Non-Essential Instrumentation">>,
  <<64, "Coprocessor">>,
  <<255, "Unassigned class">> >>
(* 256 * base class + sub-class *)
SubNames == << <<0, "Non-VGA unclassified device">>,
  <<1, "VGA compatible unclassified device">>,
  <<5, "Image coprocessor">>,
  <<256, "SCSI storage controller">>,
  <<257, "IDE interface">>,
  <<258, "Floppy disk controller">>,
  <<259, "IPI bus controller">>,
  <<260, "RAID bus controller">>,
  <<261, "ATA controller">>,
  <<262, "SATA controller">>,
  <<263, "Serial Attached SCSI controller">>,
  <<264, "Non-Volatile memory controller">>,
  <<384, "Mass storage controller">>,
  <<512, "Ethernet controller">>,
  <<513, "Token ring network controller">>,
  <<514, "FDDI network controller">>,
  <<515, "ATM network controller">>,
  <<516, "ISDN controller">>,
  <<517, "WorldFip controller">>,
  <<518, "PICMG controller">>,
  <<519, "Infiniband controller">>,
  <<520, "Fabric controller">>,
  <<640, "Network controller">>,
  <<768, "VGA compatible controller">>,
  <<769, "XGA compatible controller">>,
  <<770, "3D controller">>,
  <<896, "Display controller">>,
  <<1024, "Multimedia video controller">>,
  <<1025, "Multimedia audio controller">>,
  <<1026, "Computer telephony device">>,
  <<1027, "Audio device">>,
  <<1152, "Multimedia controller">>,
  <<1280, "RAM memory">>,
  <<1281, "FLASH memory">>,
  <<1408, "Memory controller">>,
  <<1536, "Host bridge">>,
  <<1537, "ISA bridge">>,
  <<1538, "EISA bridge">>,
  <<1539, "MicroChannel bridge">>,
  <<1540, "PCI bridge">>,
  <<1541, "PCMCIA bridge">>,
  <<1542, "NuBus bridge">>,
  <<1543, "CardBus bridge">>,
  <<1544, "RACEway bridge">>,
  <<1545, "Semi-transparent PCI-to-PCI bridge">>,
  <<1546, "InfiniBand to PCI host bridge">>,
  <<1664, "Bridge">>,
  <<1792, "Serial controller">>,
  <<1793, "Parallel controller">>,
  <<1794, "Multiport serial controller">>,
  <<1795, "Modem">>,
  <<1796, "GPIB controller">>,
  <<1797, "Smard Card controller">>,
  <<1920, "Communication controller">>,
  <<2048, "PIC">>,
  <<2049, "DMA controller">>,
  <<2050, "Timer">>,
  <<2051, "RTC">>,
  <<2052, "PCI Hot-plug controller">>,
  <<2053, "SD Host controller">>,
  <<2054, "IOMMU">>,
  <<2176, "System peripheral">>,
  <<2201, "Timing Card">>,
  <<2304, "Keyboard controller">>,
  <<2305, "Digitizer Pen">>,
  <<2306, "Mouse controller">>,
  <<2307, "Scanner controller">>,
  <<2308, "Gameport controller">>,
  <<2432, "Input device controller">>,
  <<2560, "Generic Docking Station">>,
  <<2688, "Docking Station">>,
  <<2816, "386">>,
  <<2817, "486">>,
  <<2818, "Pentium">>,
  <<2832, "Alpha">>,
  <<2848, "Power PC">>,
  <<2864, "MIPS">>,
  <<2880, "Co-processor">>,
  <<3072, "FireWire (IEEE 1394)">>,
  <<3073, "ACCESS Bus">>,
  <<3074, "SSA">>,
  <<3075, "USB controller">>,
  <<3076, "Fibre Channel">>,
  <<3077, "SMBus">>,
  <<3078, "InfiniBand">>,
  <<3079, "IPMI Interface">>,
  <<3080, "SERCOS interface">>,
  <<3081, "CANBUS">>,
  <<3328, "IRDA controller">>,
  <<3329, "Consumer IR controller">>,
  <<3344, "RF controller">>,
  <<3345, "Bluetooth">>,
  <<3346, "Broadband">>,
  <<3360, "802.1a controller">>,
  <<3361, "802.1b controller">>,
  <<3456, "Wireless controller">>,
  <<3584, "I2O">>,
  <<3841, "Satellite TV controller">>,
  <<3842, "Satellite audio communication controller">>,
  <<3843, "Satellite voice communication controller">>,
  <<3844, "Satellite data communication controller">>,
  <<4096, "Network and computing encryption device">>,
  <<4112, "Entertainment encryption device">>,
  <<4224, "Encryption controller">>,
  <<4352, "DPIO module">>,
  <<4353, "Performance counters">>,
  <<4368, "Communication synchronizer">>,
  <<4384, "Signal processing management">>,
  <<4480, "Signal processing controller">>,
  <<4608, "Processing accelerators">>,
  <<4609, "AI Inference Accelerator">> >>
(* 65536 * base class + 256 * sub-class + interface *)
IfNames == << <<65792, "ISA Compatibility mode-only controller">>,
  <<65797, "PCI native mode-only controller">>,
  <<65802, "ISA Compatibility mode controller, supports both channels switched to PCI native mode">>,
  <<65807, "PCI native mode controller, supports both channels switched to ISA compatibility mode">>,
  <<65920, "ISA Compatibility mode-only controller, supports bus mastering">>,
  <<65925, "PCI native mode-only controller, supports bus mastering">>,
  <<65930, "ISA Compatibility mode controller, supports both channels switched to PCI native mode, supports bus mastering">>,
  <<65935, "PCI native mode controller, supports both channels switched to ISA compatibility mode, supports bus mastering">>,
  <<66848, "ADMA single stepping">>,
  <<66864, "ADMA continuous operation">>,
  <<67072, "Vendor specific">>,
  <<67073, "AHCI 1.0">>,
  <<67074, "Serial Storage Bus">>,
  <<67329, "Serial Storage Bus">>,
  <<67585, "NVMHCI">>,
  <<67586, "NVM Express">>,
  <<196608, "VGA controller">>,
  <<196609, "8514 controller">>,
  <<394240, "Normal decode">>,
  <<394241, "Subtractive decode">>,
  <<395264, "Transparent mode">>,
  <<395265, "Endpoint mode">>,
  <<395584, "Primary bus towards host CPU">>,
  <<395648, "Secondary bus towards host CPU">>,
  <<458752, "8250">>,
  <<458753, "16450">>,
  <<458754, "16550">>,
  <<458755, "16650">>,
  <<458756, "16750">>,
  <<458757, "16850">>,
  <<458758, "16950">>,
  <<459008, "SPP">>,
  <<459009, "BiDir">>,
  <<459010, "ECP">>,
  <<459011, "IEEE1284">>,
  <<459262, "IEEE1284 Target">>,
  <<459520, "Generic">>,
  <<459521, "Hayes/16450">>,
  <<459522, "Hayes/16550">>,
  <<459523, "Hayes/16650">>,
  <<459524, "Hayes/16750">>,
  <<524288, "8259">>,
  <<524289, "ISA PIC">>,
  <<524290, "EISA PIC">>,
  <<524304, "IO-APIC">>,
  <<524320, "IO(X)-APIC">>,
  <<524544, "8237">>,
  <<524545, "ISA DMA">>,
  <<524546, "EISA DMA">>,
  <<524800, "8254">>,
  <<524801, "ISA Timer">>,
  <<524802, "EISA Timers">>,
  <<524803, "HPET">>,
  <<525056, "Generic">>,
  <<525057, "ISA RTC">>,
  <<563457, "TAP Timing Card">>,
  <<590848, "Generic">>,
  <<590849, "Extended">>,
  <<786432, "Generic">>,
  <<786448, "OHCI">>,
  <<787200, "UHCI">>,
  <<787216, "OHCI">>,
  <<787232, "EHCI">>,
  <<787248, "XHCI">>,
  <<787264, "USB4 Host Interface">>,
  <<787328, "Unspecified">>,
  <<787454, "USB Device">>,
  <<788224, "SMIC">>,
  <<788225, "KCS">>,
  <<788226, "BT (Block Transfer)">> >>

Keys(t) == { t[i][1] : i \in 1..Len(t) }
AsFun(t) == [k \in Keys(t) |-> t[CHOOSE i \in 1..Len(t) : t[i][1] = k][2]]
BaseF == AsFun(BaseNames)
SubF == AsFun(SubNames)
IfF == AsFun(IfNames)
OptName(f, k) == IF k \in DOMAIN f THEN "Some(" \o f[k] \o ")" ELSE "None"
(* b: the three bytes of the register, programming interface first.        *)
ClassMeaning(b) ==
  << << "interface", Str(b[1]) >>, << "sub", Str(b[2]) >>, << "base", Str(b[3]) >>,
     << "base_name", IF b[3] \in DOMAIN BaseF THEN BaseF[b[3]] ELSE "Reserved" >>,
     << "sub_name", OptName(SubF, 256*b[3] + b[2]) >>,
     << "interface_name", OptName(IfF, 65536*b[3] + 256*b[2] + b[1]) >> >>
=============================================================================
