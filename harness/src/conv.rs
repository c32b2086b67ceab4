//! Public conversions that are functions of one small register value:
//! every value of the register field is tried.
use crate::flat::{flat, num, Map};
use crate::rec::Rec;
use crate::rng::Rng;
use pcics::capabilities::accelerated_graphics_port as agp;
use pcics::capabilities::hypertransport as ht;
use pcics::capabilities::pci_express as pe;
use pcics::capabilities::power_management_interface as pm;
use pcics::extended_capabilities as x;
use pcics::header as h;
use std::fmt::Debug;

fn one<T: Debug>(rec: &mut Rec, name: &str, v: u32, dec: impl FnOnce() -> T, back: impl FnOnce(T) -> u64) {
    rec.pure("conv", format!(",\"n\":\"{name}\",\"v\":{v}"), || {
        let mut m = Map::new();
        let d = dec();
        flat("dec", &d, &mut m);
        m.insert("back".into(), num(back(d) as u128));
        Ok(m)
    });
}
macro_rules! byte_enums {
    ($rec:expr, $($t:ty, $n:literal, $bits:expr;)*) => { $(
        for v in 0..(1u32 << $bits) {
            one($rec, $n, v, || <$t>::from(v as u8), |d| u8::from(d) as u64);
        }
    )* };
}

pub fn conv(rec: &mut Rec, rng: &mut Rng, scale: usize) {
    byte_enums!(rec,
        pm::DataSelect, "DataSelect", 4;
        pe::LinkSpeed, "LinkSpeed", 4;
        pe::LinkWidth, "LinkWidth", 6;
        pe::CompletionTimeoutRanges, "CompletionTimeoutRanges", 4;
        pe::TphCompleter, "TphCompleter", 2;
        pe::LnSystemCls, "LnSystemCls", 2;
        pe::Obff, "Obff", 2;
        pe::MaxEndEndTlpPrefixes, "MaxEndEndTlpPrefixes", 2;
        pe::EmergencyPowerReduction, "EmergencyPowerReduction", 2;
        pe::CompletionTimeoutValue, "CompletionTimeoutValue", 4;
        pe::ObffEnable, "ObffEnable", 2;
        agp::CalCycle, "CalCycle", 3;
        agp::DataRateSupport, "DataRateSupport", 3;
        agp::DataRateEnabled, "DataRateEnabled", 3;
        x::l1_pm_substates::PortTPowerOnScale, "PortTPowerOnScale", 2;
        x::multifunction_virtual_channel::FunctionArbitrationSelect, "FunctionArbitrationSelect", 3;
        x::virtual_channel::PortArbitrationSelect, "PortArbitrationSelect", 3;
        x::root_complex_link_declaration::ElementType, "ElementType", 8;
        h::InterruptPin, "InterruptPin", 8;
    );
    for v in 0..2 {
        one(rec, "EndEndTlpPrefixBlocking", v, || pe::EndEndTlpPrefixBlocking::from(v == 1), |d| bool::from(d) as u64);
    }
    use x::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSfCoverage;
    for v in 0..32 {
        one(rec, "CacheSfCoverage", v, || CacheSfCoverage::from(v as u8), |d| u8::from(d) as u64);
    }
    for v in 0..256 {
        one(rec, "BuiltInSelfTest", v, || h::BuiltInSelfTest::from(v as u8), |d| u8::from(d) as u64);
        one(rec, "RevisionId", v, || ht::RevisionId::from(v as u8), |d| u8::from(&d) as u64);
    }
    // arbitration table lengths
    for v in 0..8u8 {
        rec.pure("len", format!(",\"n\":\"pat\",\"v\":{v}"), || {
            let p = x::virtual_channel::PortArbitrationSelect::from(v).port_arbitration_table_length();
            let f = x::multifunction_virtual_channel::FunctionArbitrationSelect::from(v).function_arbitration_table_length();
            let c = x::virtual_channel::VcArbitrationSelect::from(v).vc_arbitration_table_length();
            Ok([("port", p), ("function", f), ("vc", c)].iter().map(|(k, v)| (k.to_string(), v.to_string())).collect())
        });
    }
    // HyperTransport frequencies
    for v in 0..32u8 {
        rec.pure("htfreq", format!(",\"v\":{v}"), || {
            let mut m = Map::new();
            flat("dec", &ht::LinkFrequency::new(v & 16 != 0, v & 15), &mut m);
            Ok(m)
        });
    }
    // 16-bit latency register: every value and scale
    let step = if scale > 3 { 1 } else { 3 };
    let off = rng.below(step);
    for v in (off..65536).step_by(step * 5) {
        one(rec, "MaxLatency", v as u32,
            || x::latency_tolerance_reporting::MaxLatency::from(v as u16), |d| u16::from(d) as u64);
    }
    // power limits: every value at every scale
    for v in 0..256u32 {
        for s in 0..4u32 {
            rec.pure("watts", format!(",\"v\":{v},\"s\":{s}"), || {
                let l = pe::SlotPowerLimit::new(v as u8, s as u8);
                let a: f32 = (&l).into();
                let b: f32 = l.into();
                let mut m = Map::new();
                m.insert("mw".into(), num((a as f64 * 1000.0).round() as u128));
                m.insert("same".into(), (a == b).to_string());
                Ok(m)
            });
        }
    }
    // link addresses
    for _ in 0..300 * scale {
        let t = rng.below(2) as u8;
        let b = rng.regs(8);
        rec.pure("linkaddr", format!(",\"v\":{t},\"b\":{}", crate::flat::bytes(&b)), || {
            let a = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
            let c = u32::from_le_bytes([b[4], b[5], b[6], b[7]]);
            let l = x::root_complex_link_declaration::LinkAddress::new(t, a, c);
            let mut m = Map::new();
            flat("link_address", &l, &mut m);
            let r: [u32; 2] = l.into();
            m.insert("raw".into(), format!("{} {}", num(r[0] as u128), num(r[1] as u128)));
            Ok(m)
        });
    }
    // the class code is also a value of its own
    for _ in 0..100 {
        let b = [rng.byte(), rng.byte(), rng.byte()];
        rec.pure("classraw", format!(",\"b\":{}", crate::flat::bytes(&b)), || {
            let mut m = Map::new();
            flat("", &h::ClassCode::from(b), &mut m);
            Ok(m)
        });
    }
    consts(rec);
}

/// Published constants.
fn consts(rec: &mut Rec) {
    rec.pure("const", String::new(), || {
        let mut m = Map::new();
        let us = |f: f64| num((f * 1e6).round() as u128);
        use pe::CompletionTimeoutRanges as R;
        for (n, r) in [("A", R::A), ("B", R::B), ("C", R::C), ("D", R::D)] {
            m.insert(format!("timeout_{n}"), format!("{}..{}", us(r.start), us(r.end)));
        }
        for (i, s) in x::resizable_bar::ResizableBarEntry::BAR_SIZES.iter().enumerate() {
            m.insert(format!("bar_size_{i}"), s.to_string());
        }
        Ok(m)
    });
}

/// Orders of register values, and the values a type defaults to.
fn pair<T: Ord + Clone + Debug>(rec: &mut Rec, name: &str, v: u8, w: u8, n: u8, mk: impl Fn(u8) -> T) {
    rec.pure("ord", format!(",\"n\":\"{name}\",\"v\":{v},\"s\":{w}"), || {
        let (a, b) = (mk(v), mk(w));
        let o = a.cmp(&b);
        // (how many are smaller: in a total order this decides)
        let rank = |x: &T| (0..n).filter(|k| mk(*k) < *x).count();
        let fits = o == b.cmp(&a).reverse()
            && o == rank(&a).cmp(&rank(&b))
            && a.partial_cmp(&b) == Some(o)
            && (a == b) == o.is_eq()
            && (a < b, a <= b, a > b, a >= b) == (o.is_lt(), o.is_le(), o.is_gt(), o.is_ge())
            && a.clone().max(b.clone()) == if o.is_gt() { a.clone() } else { b.clone() }
            && a.clone().min(b.clone()) == if o.is_gt() { b.clone() } else { a.clone() };
        Ok([("order", format!("{o:?}")), ("fits", fits.to_string())].into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    });
}
pub fn order(rec: &mut Rec) {
    for v in 0..16 {
        for w in 0..16 {
            pair(rec, "LinkSpeed", v, w, 16, pe::LinkSpeed::from);
        }
    }
    for v in 0..64 {
        for w in 0..64 {
            pair(rec, "LinkWidth", v, w, 64, pe::LinkWidth::from);
        }
    }
    fn d<T: Default + Debug>(rec: &mut Rec, name: &str) {
        rec.pure("default", format!(",\"n\":\"{name}\""), || {
            let mut m = Map::new();
            flat("dec", &T::default(), &mut m);
            Ok(m)
        });
    }
    use pcics::capabilities::message_signaled_interrups as msi;
    d::<h::BuiltInSelfTest>(rec, "BuiltInSelfTest");
    d::<h::InterruptPin>(rec, "InterruptPin");
    d::<h::ExpansionRom>(rec, "ExpansionRom");
    d::<h::IoAccessAddressRange>(rec, "IoAccessAddressRange");
    d::<h::Command>(rec, "Command");
    d::<h::BridgeControl>(rec, "BridgeControl");
    d::<h::CardbusBridgeControl>(rec, "CardbusBridgeControl");
    d::<h::ClassCode>(rec, "ClassCode");
    d::<msi::MessageSignaledInterrups>(rec, "MessageSignaledInterrups");
    d::<msi::MessageControl>(rec, "MessageControl");
    d::<msi::MultipleMessage>(rec, "MultipleMessage");
    d::<msi::MessageAddress>(rec, "MessageAddress");
    d::<ht::LinkWidth>(rec, "LinkWidth");
    d::<ht::LinkFrequency>(rec, "LinkFrequency");
}

/// Names of every class code: one line per (base, sub), all 256 interfaces.
pub fn class(rec: &mut Rec) {
    for base in 0..=255u8 {
        for sub in 0..=255u8 {
            rec.pure("class", format!(",\"v\":{base},\"s\":{sub}"), || {
                let mut m = Map::new();
                let mut ifs = String::new();
                for interface in 0..=255u8 {
                    let c = h::ClassCode { interface, sub, base };
                    let (b, s, i) = c.meaning();
                    let s = s.map_or("None".into(), |s| format!("Some({s})"));
                    for (k, v) in [("base_name", b.to_string()), ("sub_name", s)] {
                        let old = m.entry(k.to_string()).or_insert_with(|| v.clone());
                        if *old != v && !old.ends_with('!') {
                            *old = format!("{old}, but {v} for interface {interface}!");
                        }
                    }
                    if let Some(i) = i {
                        ifs.push_str(&format!("{interface}={i};"));
                    }
                }
                m.insert("interfaces".into(), ifs);
                Ok(m)
            });
        }
    }
}

/// Published sizes and offsets.
pub fn sizes(rec: &mut Rec) {
    use pcics::capabilities as c;
    use x::designated_vendor_specific_extended_capability::{compute_express_link::pcie_dvsec_for_cxl_device as cxl, *};
    for (n, v) in [
            ("DDR_OFFSET", pcics::DDR_OFFSET),
            ("ECS_OFFSET", pcics::ECS_OFFSET),
            ("DDR_LENGTH", pcics::DDR_LENGTH),
            ("ECS_LENGTH", pcics::ECS_LENGTH),
            ("Header", h::Header::TOTAL_SIZE),
            ("Header.common", h::Header::COMMON_SIZE),
            ("Capability.header", c::Capability::HEADER_SIZE),
            ("ECH_BYTES", x::ECH_BYTES),
            ("ExtendedCapabilityHeader", x::ExtendedCapabilityHeader::SIZE),
            ("ExtendedCapability.header", x::ExtendedCapability::HEADER_SIZE),
            ("BridgeSubsystemVendorId", c::BridgeSubsystemVendorId::SIZE),
            ("Virtio", c::vendor_specific::Virtio::SIZE),
            ("PciExpress", c::PciExpress::SIZE),
            ("FlatteningPortalBridge", c::FlatteningPortalBridge::SIZE),
            ("MsiX", c::MsiX::SIZE),
            ("SlaveOrPrimaryInterface", c::hypertransport::SlaveOrPrimaryInterface::SIZE),
            ("HostOrSecondaryInterface", c::hypertransport::HostOrSecondaryInterface::SIZE),
            ("RevisionId", c::hypertransport::RevisionId::SIZE),
            ("MsiMapping", c::hypertransport::MsiMapping::SIZE),
            ("MSI_32BIT", c::message_signaled_interrups::MSI_32BIT_SIZE),
            ("MSI_64BIT", c::message_signaled_interrups::MSI_64BIT_SIZE),
            ("MSI_32BIT_PVM", c::message_signaled_interrups::MSI_32BIT_PVM_SIZE),
            ("MSI_64BIT_PVM", c::message_signaled_interrups::MSI_64BIT_PVM_SIZE),
            ("MessageControl", c::message_signaled_interrups::MessageControl::SIZE),
            ("PcieDvsecForCxlDevice", cxl::PcieDvsecForCxlDevice::SIZE),
            ("CxlCapability", cxl::CxlCapability::SIZE),
            ("CxlControl", cxl::CxlControl::SIZE),
            ("CxlStatus", cxl::CxlStatus::SIZE),
            ("CxlControl2", cxl::CxlControl2::SIZE),
            ("CxlStatus2", cxl::CxlStatus2::SIZE),
            ("CxlLock", cxl::CxlLock::SIZE),
            ("CxlCapability2", cxl::CxlCapability2::SIZE),
            ("CxlRangeSize", cxl::CxlRangeSize::SIZE),
            ("CxlRangeBase", cxl::CxlRangeBase::SIZE),
            ("Dvsec.min", DesignatedVendorSpecificExtendedCapability::MIN_SIZE),
            ("Dvsec.max", DesignatedVendorSpecificExtendedCapability::MAX_SIZE),
            ("FrsQueuing", x::FrsQueuing::SIZE),
            ("FrsQueuingCapability", x::frs_queuing::FrsQueuingCapability::SIZE),
            ("FrsQueuingStatus", x::frs_queuing::FrsQueuingStatus::SIZE),
            ("FrsQueuingControl", x::frs_queuing::FrsQueuingControl::SIZE),
            ("FrsMessageQueue", x::frs_queuing::FrsMessageQueue::SIZE),
            ("MfvcChannel", x::multifunction_virtual_channel::ExtendedVirtualChannel::SIZE),
            ("VcChannel", x::virtual_channel::ExtendedVirtualChannel::SIZE),
            ("PciExpressOverMphy", x::PciExpressOverMphy::SIZE),
            ("ConfigurationAccessCorrelation", x::ConfigurationAccessCorrelation::SIZE),
            ("ResizableBar.entry", x::ResizableBar::ENTRY_SIZE),
            ("Multicast", x::Multicast::SIZE),
            ("LnRequester", x::LnRequester::SIZE),
            ("SingleRootIoVirtualization", x::SingleRootIoVirtualization::BYTES),
            ("ECL_OFFSET", x::secondary_pci_express::ECL_OFFSET),
            ("Aer.common", x::AdvancedErrorReporting::COMMON_SIZE),
            ("Aer.root", x::AdvancedErrorReporting::RP_AND_RCEC_SIZE),
            ("Aer.full", x::AdvancedErrorReporting::FULL_SIZE),
            ("Aer.header_log", x::AdvancedErrorReporting::HEADER_LOG_SIZE),
            ("Aer.prefix_log", x::AdvancedErrorReporting::TLP_PREFIX_LOG_SIZE),
            ("PmuxProtocolArrayEntry", x::protocol_multiplexing::PmuxProtocolArrayEntry::SIZE),
            ("RootComplexInternalLinkControl", x::RootComplexInternalLinkControl::SIZE),
            ("ElementSelfDescription", x::root_complex_link_declaration::ElementSelfDescription::BYTES),
            ("LinkEntry", x::root_complex_link_declaration::LinkEntry::SIZE),
            ("LinkEntry.dwords", x::root_complex_link_declaration::LinkEntry::DWORDS),
            ("LinkEntries.first", x::root_complex_link_declaration::LinkEntries::FIRST_ENTRY_OFFSET),
            ("ReadinessTimeReporting", x::ReadinessTimeReporting::SIZE),
            ("RootComplexRegisterBlockHeader", x::RootComplexRegisterBlockHeader::SIZE),
            ("Rcec", x::RootComplexEventCollectorEndpointAssociation::SIZE),
        ] {
            rec.pure("size", format!(",\"n\":\"{n}\""), || Ok(Map::from([("size".to_string(), v.to_string())])));
        }
}
