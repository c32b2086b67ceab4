#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, C, X = "src/header.rs", "src/capabilities.rs", "src/extended_capabilities.rs"
c = lambda *n: ["src/capabilities/%s.rs" % i for i in n]
x = lambda *n: ["src/extended_capabilities/%s.rs" % i for i in n]
TESTS = "The existing tests decode a handful of hand-written byte arrays and two dumps; "

P = []
def prop(id, title, statement, over, text, why, files, mech, note):
    P.append((id, title, statement, over, text, TESTS + why, files, mech, note))

prop("C01", "No configuration space makes decoding panic, hang or never end",
 "Whatever bytes a configuration space holds and however short its readable parts are, decoding the header, walking either capability list, reading every decoded value and running every iterator it hands out to its end completes without a panic or arithmetic overflow and within a number of steps bounded by the size of the configuration space.",
 ["inputs"], "all byte strings of every length in each of the three regions, and all register values given to the public conversions",
 "none tries malformed, truncated or adversarial input, where indexing, slicing, shifting and endless links fail.",
 [H, C, X] + c("pci_express", "enhanced_allocation") + x("virtual_channel", "secondary_pci_express", "multifunction_virtual_channel"),
 [("checked slicing in the walks and decoders", C + ", " + X + " (Iterator::next)"), ("length checks before lazy table access", "src/extended_capabilities/virtual_channel.rs")],
 "every recorded call must return")
prop("C02", "The capability list walk reports exactly the linked structures, in order",
 "Walking the capability list reports, in link order starting at the pointer of the device's header layout, each structure the links lead to with its true position and kind, and nothing else; the two reserved low bits of every pointer are ignored. The walk ends at a null link, and a link below 40h or one whose header cannot be read is reported as one error after which it ends.",
 ["inputs"], "all placements, link orders, pointer values, header layouts and region lengths",
 "each has one list in ascending order with clean pointers.",
 [C, H], [("pointer following", C + " Iterator for Capabilities"), ("first pointer by header layout", H + " TryFrom<&[u8]> for Header")],
 "model of the walk on every small list, replayed; arbitrary larger lists validated")
prop("C03", "The extended capability walk reports exactly the linked structures, in order",
 "Walking the extended capabilities reports, in link order starting at 100h, each structure the links lead to with its true offset, id, version and kind, and nothing else; an all-zero header or a null link ends it. A link below 100h or to a header that cannot be read is reported as one error after which the walk ends.",
 ["inputs"], "all placements, link orders, offsets, versions and region lengths",
 "each has one or two structures at small offsets.",
 [X], [("offset following", X + " Iterator for ExtendedCapabilities")],
 "model of the walk on every small list, replayed; arbitrary larger lists validated")
prop("C04", "Lists whose links form cycles are finite and each structure is reported once",
 "For any links whatsoever, including self-links, cycles and links back into the middle of the list, a walk of either list ends, and no structure is reported twice.",
 ["inputs"], "all link graphs over the structures of a configuration space",
 "no test has a list that is not a simple chain.",
 [C, X], [("visited set", C + ", " + X + " Iterator::next")],
 "all link graphs on three structures (safety and termination), random larger ones")
prop("C05", "A structure's meaning does not depend on where it lies or what surrounds it",
 "The same structure bytes decode to the same values wherever in the region the structure is placed, whatever its neighbours and the unrelated bytes around it contain, whatever its position in the list, and whether the region ends right behind it or goes on.",
 ["inputs", "configurations"], "all placements and surroundings of every kind of structure",
 "each decodes a structure in one place.",
 [C, X], [("decoders receive the bytes from the structure's own offset on", C + ", " + X)],
 "the same structure at many places")
prop("C06", "A cut-off structure is one error naming its place; the rest stays readable",
 "A structure whose fixed part the readable region cuts off, or whose own length or count fields rule it out, is reported as one error that states where the structure is and what is missing, never as a decoded value; and the walk goes on to the structures linked behind it.",
 ["inputs", "fault_sequences"], "every structure kind cut at every length, every inconsistent count or length, in any position of a list",
 "a few error cases are tested in isolation, none inside a list.",
 [C, X], [("error values carry the pointer or offset", C + " CapabilityError, " + X + " ExtendedCapabilityError")],
 "every kind cut at every length in the middle of a list")
prop("C07", "Iterators are independent of each other and stay at their end",
 "A duplicate of a walk or of any iterator over decoded contents yields exactly what remained at the moment it was made, however calls on it and on the original interleave, and neither disturbs the other. However it is consumed — one call at a time, skipping ahead, counting — an iterator goes through the same elements. Once it has reported its end it keeps reporting it.",
 ["histories", "schedules"], "all interleavings of calls on an iterator and its duplicate, duplicated at any point",
 "no test duplicates an iterator or calls one again after its end.",
 [C, X, "src/header/bar.rs"] + c("enhanced_allocation") + x("virtual_channel", "resizable_bar", "root_complex_link_declaration"),
 [("iteration state is a plain value", C + ", " + X)],
 "all interleavings of two handles on small lists and on every kind of content iterator, replayed; random call scripts of up to four handles; nested iterators observed on every decoded structure")
prop("C08", "Ids without a decoder of their own are still reported, id and version intact",
 "Every capability id and every extended capability id leads to a report: a known one under its kind, any other as reserved with the id preserved, so that nothing in a list is hidden; the id and version of an extended capability are reported unchanged for every value.",
 ["inputs"], "all 256 capability ids, all 65536 extended capability ids, all 16 versions",
 "only known ids with version 1 or so occur.",
 [C, X], [("dispatch on the id", C + ", " + X), ("id of a kind", X + " ExtendedCapability::id")],
 "all ids")
prop("C09", "Header registers decode to the fields the layout defines",
 "For every 64-byte header the common registers (ids, command, status, revision, class, cache line, latency, layout and multi-function bit, BIST) and the registers of the layout it selects (normal, bridge, CardBus, or none) decode to exactly the bits the PCI layout assigns them; anything shorter is an error.",
 ["inputs"], "all header contents and all 128 layout codes",
 "one header per layout is decoded.",
 [H, "src/header/command.rs", "src/header/status.rs", "src/header/bridge_control.rs", "src/header/cardbus_bridge_control.rs"],
 [("bit-field decoding", H), ("layout selection", H + " TryFrom<&[u8]> for Header")],
 "every bit alone set and clear, random headers")
prop("C10", "Base address registers decode to exactly the regions they describe",
 "Reading the base address registers of a device, bridge, CardBus header or SR-IOV structure yields one region per occupied register in order, with its register number, kind (I/O, 32-bit, below 1M, 64-bit, reserved, or a 64-bit one lacking its second register), prefetchability and address; a 64-bit region takes exactly two registers and empty registers are skipped.",
 ["inputs"], "all combinations of register kinds and addresses in every position",
 "a few combinations are tested.",
 ["src/header/bar.rs", H] + x("single_root_io_virtualization"), [("region iterator", "src/header/bar.rs Iterator for BaseAddresses")],
 "all combinations of register kinds model checked and replayed")
prop("C11", "Bridge and CardBus windows decode to the ranges their registers describe",
 "The I/O and prefetchable windows of a bridge are reported as absent, 16/32-bit or 32/64-bit, reserved or malformed exactly as the capability bits of base and limit say, with base and limit assembled from their lower and upper registers; CardBus windows and the optional CardBus registers likewise.",
 ["inputs"], "all combinations of capability bits and address bits of base, limit and upper registers",
 "each form is tested once.",
 [H], [("window construction", H + " IoAddressRange::new, PrefetchableMemory::new, IoAccessAddressRange")],
 "every pair of capability nibbles with varied addresses")
prop("C12", "Every class code has the name the class list assigns, and no other",
 "For each of the 16,777,216 class codes the reported names of base class, sub-class and programming interface are those of the PCI class list, a level the list does not name is reported as having no name, and the name of a level does not depend on lower levels.",
 ["inputs"], "all class codes",
 "three class codes are tested.",
 ["src/header/class_code.rs"], [("name tables", "src/header/class_code.rs ClassCode::meaning")],
 "all class codes")
prop("C13", "Basic capabilities decode to the fields their layouts define",
 "Power management, AGP, vital product data, slot identification, debug port, bridge subsystem id, SATA and advanced features structures decode to exactly the bits their layouts assign to each field, reserved encodings being reported as such with their value.",
 ["inputs"], "all register contents and readable lengths",
 "one value per structure.",
 c("power_management_interface", "accelerated_graphics_port", "vital_product_data", "slot_identification", "debug_port", "bridge_subsystem_vendor_id", "sata", "advanced_features"),
 [("bit-field decoding", "src/capabilities/*.rs TryFrom<&[u8]>")], "every bit alone, byte sweeps, random contents")
prop("C14", "MSI and MSI-X decode in all their forms",
 "An MSI structure decodes to the form its control word selects (32 or 64-bit address, with or without per-vector masking) with address, data, mask and pending bits taken from the places of that form, and MSI-X decodes its table size, flags, and the BAR and offset of its table and pending-bit array.",
 ["inputs"], "all control words, contents and readable lengths",
 "one value per form.",
 c("message_signaled_interrups", "msi_x"), [("form selection", "src/capabilities/message_signaled_interrups.rs")], "every bit alone, byte sweeps, random contents, every cut")
prop("C15", "PCI Express capability decodes per version and device type",
 "The PCI Express structure decodes its device, link, slot, root and second-generation registers to exactly the bits the layout assigns, reports the device or port type (with the direction implied by the header layout not guessed), and reports the optional register groups as present exactly when the readable length or version provides them.",
 ["inputs"], "all register contents, versions, device types and readable lengths",
 "a few real examples.",
 c("pci_express"), [("decoding by version and length", "src/capabilities/pci_express.rs TryFrom<&[u8]>")], "every bit alone, byte sweeps, all lengths")
prop("C16", "HyperTransport capability decodes per type",
 "A HyperTransport structure is recognised by its type bits, the three-bit types being matched before the five-bit ones, and its registers decode to exactly the bits the layout of that type assigns; a reserved type is reported with its code.",
 ["inputs"], "all type codes, register contents and readable lengths",
 "one value for some types.",
 c("hypertransport"), [("type selection", "src/capabilities/hypertransport.rs TryFrom<&[u8]>")], "every type, every bit alone, byte sweeps")
prop("C17", "PCI-X and Flattening Portal Bridge decode to the fields their layouts define",
 "PCI-X structures of devices and of bridges, with their optional error-correction registers, and Flattening Portal Bridge structures decode to exactly the bits their layouts assign, including the value ranges that encodings of sizes, granularities and starts stand for.",
 ["inputs"], "all register contents, versions, header layouts and readable lengths",
 "one or two values.",
 c("pci_x", "flattening_portal_bridge"), [("bit-field decoding", "src/capabilities/pci_x.rs, flattening_portal_bridge.rs")], "every bit alone, byte sweeps, random contents")
prop("C18", "Enhanced Allocation entries decode completely, in both sizing modes",
 "An Enhanced Allocation structure yields at most as many entries as it announces, each with the properties, resource and base/offset (32 or 64-bit as flagged) of its own bytes, the next entry starting where the announced entry size - or, in the content-sized build, the entry's real size - says; a bridge's fixed bus numbers are read only under a bridge header, and an entry that does not fit ends the list.",
 ["inputs", "configurations"], "all entry contents, sizes, counts, header layouts, readable lengths and both build configurations",
 "one list with consistent sizes, in one configuration.",
 c("enhanced_allocation"), [("entry iterator", "src/capabilities/enhanced_allocation.rs Iterator for EnhancedAllocationEntries")], "random and inconsistent entry lists in both builds")
prop("C19", "Vendor-defined structures expose exactly their own bytes and known formats",
 "Vendor-specific capabilities, vendor-specific and designated vendor-specific extended capabilities report their ids, revision and length and exactly the bytes that length covers; Virtio structures (under Virtio device ids only) and Compute Express Link structures (under the CXL vendor id only) are decoded to the fields of their formats.",
 ["inputs"], "all lengths, ids, vendor and device ids and contents",
 "one value per format.",
 c("vendor_specific") + x("vendor_specific_extended_capability", "designated_vendor_specific_extended_capability",
   "designated_vendor_specific_extended_capability/compute_express_link", "designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device"),
 [("length-delimited data", "src/extended_capabilities/vendor_specific_extended_capability.rs")], "length fields around the real size, all format ids")
prop("C20", "Error reporting, containment and access control structures decode faithfully",
 "Advanced Error Reporting, Downstream Port Containment and Access Control Services structures decode every status, mask, severity, control, header-log and source field from its place; registers beyond the readable part are reported as absent, and the egress control vector has exactly the announced number of bits in order.",
 ["inputs"], "all register contents, optional parts and readable lengths",
 "one value each.",
 x("advanced_error_reporting", "downstream_port_containment", "access_control_services"), [("optional parts by length and flags", "src/extended_capabilities/advanced_error_reporting.rs, downstream_port_containment.rs")],
 "every bit alone, every length, vectors of all sizes")
prop("C21", "Virtual channel structures and arbitration tables decode completely",
 "Virtual Channel and Multi-Function Virtual Channel structures yield their port registers, one entry per announced channel, and arbitration tables whose location, entry width and length are those the offset and selection fields give; a table that is absent or does not fit is reported as absent or shortened as documented, never read from elsewhere.",
 ["inputs"], "all channel counts, table offsets, entry widths, selections and readable lengths",
 "one structure with consistent tables.",
 x("virtual_channel", "multifunction_virtual_channel"), [("lazy tables", "src/extended_capabilities/virtual_channel.rs VirtualChannel::port_arbitration_table, vc_arbitration_table")],
 "random counts, offsets and selections; long tables")
prop("C22", "Fixed-size extended capabilities decode to the fields their layouts define",
 "Device serial number, power budgeting, root complex link control, event collector, register block header, access correlation, ARI, ATS, page request, latency tolerance, PASID, LN requester, L1 substates, precision time, M-PHY, FRS queuing and readiness time structures decode to exactly the bits their layouts assign to each field.",
 ["inputs"], "all register contents and readable lengths",
 "one value each.",
 x("device_serial_number", "power_budgeting", "root_complex_internal_link_control", "root_complex_event_collector_endpoint_association", "root_complex_register_block_header",
   "configuration_access_correlation", "alternative_routing_id_interpolation", "address_translation_services", "page_request_interface", "latency_tolerance_reporting",
   "process_address_space_id", "ln_requester", "l1_pm_substates", "precision_time_measurement", "pci_express_over_m_phy", "frs_queuing", "readiness_time_reporting"),
 [("bit-field decoding", "src/extended_capabilities/*.rs TryFrom<&[u8]>")], "every bit alone, byte sweeps, random contents")
prop("C23", "SR-IOV, Multicast and Resizable BAR structures decode faithfully",
 "SR-IOV and Multicast structures decode to exactly the fields of their layouts with 64-bit values assembled from both halves, and Resizable BAR and VF Resizable BAR structures yield exactly the announced one to six entries, each with its own supported sizes and control, any other count being an error.",
 ["inputs"], "all register contents, entry counts and readable lengths",
 "one value each.",
 x("single_root_io_virtualization", "multicast", "resizable_bar"), [("entry iterator", "src/extended_capabilities/resizable_bar.rs")], "every bit alone, all counts, random contents")
prop("C24", "List-bearing extended capabilities yield exactly their announced elements",
 "Root complex link declarations, dynamic power allocation, TPH requester, secondary PCI Express and protocol multiplexing structures yield exactly the elements their count fields announce and the readable bytes contain, in order, each decoded from its own place, and report contradictions between count and length as specified.",
 ["inputs"], "all counts, contents and readable lengths",
 "one list each.",
 x("root_complex_link_declaration", "dynamic_power_allocation", "tph_requester", "secondary_pci_express", "protocol_multiplexing"), [("element iterators", "src/extended_capabilities/root_complex_link_declaration.rs LinkEntries and others")],
 "all counts, long lists, every cut")
prop("C25", "Decoded values encode back to the register value they came from",
 "Every decoded value the library can convert back into a register value (enumerations, BIST, interrupt pin, expansion ROM, base addresses, CardBus windows, link addresses, latencies, L1 registers, channel and protocol entries) yields the original bits, reserved ones excepted, and distinct encodings never collapse into one meaning.",
 ["inputs"], "all values of every re-encodable register or field",
 "a few values are converted one way.",
 [H, "src/header/bar.rs"] + c("pci_express", "accelerated_graphics_port", "hypertransport", "power_management_interface") + x("l1_pm_substates", "latency_tolerance_reporting", "root_complex_link_declaration", "protocol_multiplexing", "multifunction_virtual_channel"),
 [("From conversions", "src/**/*.rs impl From<...> for u8/u16/u32")], "all values of small fields, sampled wide registers")
prop("C26", "Derived quantities have the value and unit the registers stand for",
 "Quantities computed from registers - vector counts, byte counts, latencies and times in ns or us, power in W, BAR offsets and sizes, link frequencies, base addresses, device-type predicates, trigger reasons, table lengths - equal the scaled value the specification gives for those register contents, including at the largest values.",
 ["inputs"], "all register values including saturated ones",
 "a few values.",
 c("pci_express", "pci_x", "sata", "hypertransport", "message_signaled_interrups", "power_management_interface") + x("latency_tolerance_reporting", "l1_pm_substates", "readiness_time_reporting", "resizable_bar", "downstream_port_containment", "power_budgeting"),
 [("accessor methods", "src/**/*.rs fn value() and others")], "all values of small fields, every bit alone, random contents")
prop("C27", "Structures are interpreted in the context of the device's own header",
 "Where a structure's meaning depends on the device, it is decided by that device's header alone: the PCI-X form by the bridge layout, the bus numbers of Enhanced Allocation by the bridge layout, Virtio contents by vendor and device id, the start of the list by the layout; the multi-function bit never matters.",
 ["inputs", "configurations"], "all combinations of header layout, multi-function bit, vendor and device id with the structures that depend on them",
 "each structure is decoded under one header.",
 [C, H] + c("pci_x", "enhanced_allocation", "vendor_specific"), [("header passed to decoders", C + " Capabilities::new")], "the same structure under many headers")

prop("C28", "Values that compare equal are indistinguishable",
 "Two decoded values, capability walks or content iterators that compare equal report the same fields and yield the same remaining elements from there on, at whatever point of their iteration they are compared; the same bytes decoded twice compare equal; and comparison is symmetric. Bits that no field reports may count towards equality or not.",
 ["inputs", "histories"], "all pairs of decoded structures and of iterators, each advanced by any number of steps",
 "they only compare a fresh value with an expected one, never partly consumed iterators or near-identical structures.",
 [C, X, "src/header/bar.rs"] + c("enhanced_allocation") + x("virtual_channel", "resizable_bar", "advanced_error_reporting"),
 [("PartialEq implementations", "src/**/*.rs impl PartialEq")], "pairs of structures and of iterators one step or one bit apart")

prop("C29", "Published sizes and offsets are those of the PCI layouts",
 "The sizes, offsets and ranges the library publishes as constants (regions of the configuration space, headers, structures, registers, entries, completion timeout ranges, BAR size names) are those of the layouts its decoders read: a structure is decoded from its published size on and not from fewer bytes.",
 ["configurations", "inputs"], "all published constants, against all lengths of the structures they describe",
 "they hardly use the constants, and never compare them with what the decoders need.",
 ["src/lib.rs", H, C, X] + c("message_signaled_interrups", "hypertransport", "pci_express") + x("frs_queuing", "multicast", "advanced_error_reporting"),
 [("constants", "src/**/*.rs pub const")], "all constants; every length of the fixed-size structures in the model")
prop("C30", "Decoding a structure on its own agrees with decoding it in a list",
 "Each structure's own decoder (TryFrom or try_new on its bytes) and the decoding of a header from an array report, for the same bytes and header, exactly the values specified for the structure found in a list, and refuse exactly the same byte strings.",
 ["inputs", "configurations"], "all contents and lengths of every kind of structure",
 "the two ways are tried on different examples.",
 [C, X, H] + c("message_signaled_interrups", "pci_x", "vendor_specific", "enhanced_allocation") + x("virtual_channel", "resizable_bar"),
 [("stand-alone decoders", "src/**/*.rs impl TryFrom<&[u8]>")], "every kind, random contents and cuts")
prop("C31", "Speeds and widths order by magnitude; defaults mean zeroed registers",
 "Link speeds and link widths are totally ordered, a faster or wider one (for speeds: a later place of the Supported Link Speeds Vector, the reserved seventh included) comparing greater than a slower or narrower one, consistently in every comparison operation and with equality; and the default value of every register type that has one is what registers that are all zero decode to.",
 ["inputs"], "all pairs of values; all types with a default",
 "no test compares two speeds or widths, and defaults are used only as fillers.",
 [C.replace("capabilities.rs", "capabilities/pci_express.rs"), H, "src/capabilities/message_signaled_interrups.rs", "src/capabilities/hypertransport.rs"],
 [("derived orders", "src/capabilities/pci_express.rs LinkSpeed, LinkWidth"), ("derived defaults", "src/**/*.rs #[derive(Default)]")], "every pair, every default")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for id, title, st, over, text, why, files, mech, note in P:
            assert len(title) <= 80, (id, len(title))
            f.write(json.dumps(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))) + "\n")
    checks = []
    for id, title, st, over, text, why, files, mech, note in P:
        checks.append(dict(property=id, quick_cmd=f"python3 bin/check.py {id} quick", thorough_cmd=f"python3 bin/check.py {id} thorough",
            technique="TLA+ specification checked with TLC; traces of the real code validated against it and model behaviours replayed into it (" + note + ")",
            level="model_checking",
            level_note="The specification is total over inputs; conformance of the code is established on the inputs driven (" + note + "), not for all inputs. Trusts TLC, the harness's projection of values, and the specification's transcription of the PCI layouts."))
    m = dict(version=1, setup_cmd="bash bin/setup.sh",
             hooks=dict(guard="none", enable="no hooks are needed: everything is observed through the public API", source_commits=[]),
             checks=checks, not_applicable=[],
             notes="Known findings and repaired defects: KNOWN_FINDINGS.md. Design: DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
