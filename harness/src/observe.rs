//! What the real code reports, as maps in the specification's vocabulary.
use crate::flat::{flat, flat_as, num, Map, LANE};
use pcics::capabilities::{hypertransport::Hypertransport as Ht, CapabilityKind as C};
use pcics::extended_capabilities::{
    multifunction_virtual_channel::{ExtendedVirtualChannel as MfEvc, MultifunctionVirtualChannel},
    virtual_channel::VirtualChannel,
    ExtendedCapabilityKind as X,
};
use std::fmt::Debug;
use pcics::header::{BaseAddresses, Header, HeaderType};

const MAX: usize = 3000; // more elements than any list of the format can have

fn drop_under(m: &mut Map, pre: &str) {
    let dot = format!("{pre}.");
    m.retain(|k, _| k != pre && !k.starts_with(&dot));
}
fn put(m: &mut Map, k: &str, v: impl ToString) {
    m.insert(k.into(), v.to_string());
}

/// Whether an iterator that yields `v` yields the same however it is asked.
pub fn ways<I: Iterator + Clone>(it: &I, v: &[String]) -> String
where
    I::Item: Debug,
{
    let show = |e: I::Item| format!("{e:?}");
    let n = v.len();
    if it.clone().last().map(show).as_ref() != v.last() {
        return "last".into();
    }
    if it.clone().map(show).collect::<Vec<_>>() != v {
        return "collect".into();
    }
    if it.clone().fold(0usize, |k, e| if k < n && v[k] == show(e) { k + 1 } else { n + 1 }) != n {
        return "fold".into();
    }
    if it.clone().step_by(3).map(show).ne(v.iter().step_by(3).cloned()) {
        return "step_by".into();
    }
    for k in [0, 1, 2, 3, 4, 5, 7, 8, 9, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1] {
        let mut a = it.clone();
        if a.nth(k).map(show).as_ref() != v.get(k) || a.next().map(show).as_ref() != v.get(k + 1) {
            return format!("nth({k})");
        }
        let mut a = it.clone();
        a.next();
        if a.nth(k).map(show).as_ref() != v.get(k + 1) {
            return format!("next, nth({k})");
        }
    }
    "same".into()
}

/// The elements of a nested iterator.  Under "iter" it is recorded whether
/// the iterator is well behaved: it stays at its end, a clone taken midway
/// yields the rest whatever became of the original, the size hint is true.
pub fn drain<I: Iterator + Clone>(it: &I, name: &str, m: &mut Map) -> Vec<I::Item>
where
    I::Item: Debug,
{
    m.entry("iter".into()).or_insert_with(|| "ok".into());
    let bad = |m: &mut Map, s: &str| put(m, "iter", format!("{name}: {s}"));
    let mut a = it.clone();
    let v: Vec<_> = a.by_ref().take(MAX).collect();
    if v.len() == MAX {
        bad(m, "endless");
        return v;
    }
    if a.next().is_some() || a.next().is_some() {
        bad(m, "yields again after its end");
    }
    let (lo, hi) = it.size_hint();
    if lo > v.len() || hi.map_or(false, |h| h < v.len()) {
        bad(m, "wrong size hint");
    }
    let w = ways(it, &v.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>());
    if w != "same" {
        bad(m, &format!("differs by {w}"));
    }
    if it.clone().count() != v.len() {
        bad(m, "wrong count");
    }
    let mut z = a.clone();
    if z.next().is_some() {
        bad(m, "a clone of the ended iterator yields");
    }
    let n = v.len();
    for k in [1, 2, 3, 7, n / 2, n.saturating_sub(1)] {
        if k >= v.len() || k == 0 {
            continue;
        }
        let mut a = it.clone();
        for _ in 0..k {
            a.next();
        }
        let b = a.clone();
        a.next();
        let rest: Vec<_> = b.take(MAX).collect();
        let own: Vec<_> = it.clone().skip(k + 1).take(MAX).collect();
        let left: Vec<_> = a.take(MAX).collect();
        if format!("{rest:?}") != format!("{:?}", &v[k..]) {
            bad(m, "a clone differs from its original");
        }
        if format!("{left:?}") != format!("{own:?}") {
            bad(m, "cloning disturbs the original");
        }
    }
    v
}

fn bars<const N: usize>(b: &BaseAddresses<N>, m: &mut Map) {
    let v: Vec<_> = drain(b, "base addresses", m);
    put(m, "bars.#", v.len());
    for (i, ba) in v.iter().enumerate() {
        flat(&format!("bars.{i}"), ba, m);
    }
    for (i, d) in b.orig().iter().enumerate() {
        put(m, &format!("orig.{i}"), num(*d as u128));
    }
    let enc: [u32; N] = v.iter().collect();
    let enc2: [u32; N] = b.clone().collect();
    for i in 0..N {
        let same = if enc[i] == enc2[i] { "" } else { "by-reference differs " };
        put(m, &format!("enc.{i}"), format!("{same}{}", num(enc[i] as u128)));
    }
}

pub fn header(h: &Header) -> Map {
    let mut m = Map::new();
    flat("", h, &mut m);
    drop_under(&mut m, "header_type.base_addresses");
    match &h.header_type {
        HeaderType::Normal(n) => bars(&n.base_addresses, &mut m),
        HeaderType::Bridge(n) => bars(&n.base_addresses, &mut m),
        HeaderType::Cardbus(n) => bars(&n.base_addresses, &mut m),
        _ => (),
    }
    put(&mut m, "fn_type_byte", u8::from(&h.header_type));
    put(&mut m, "fn_type_value", u8::from(h.header_type.clone()));
    put(&mut m, "fn_pin_byte", u8::from(h.interrupt_pin.clone()));
    put(&mut m, "fn_bist_byte", u8::from(h.bist.clone()));
    match h.header_type.expansion_rom() {
        None => put(&mut m, "fn_rom", "None"),
        Some(r) => {
            put(&mut m, "fn_rom", num(u32::from(r.clone()) as u128));
            put(&mut m, "fn_rom64", num(u64::from(r) as u128));
        }
    }
    if let HeaderType::Cardbus(c) = &h.header_type {
        for (i, r) in [&c.io_access_address_range_0, &c.io_access_address_range_1].iter().enumerate() {
            let w: [[u16; 2]; 2] = (*r).clone().into();
            put(&mut m, &format!("fn_io_{i}"), format!("{} {} {} {}", w[0][0], w[0][1], w[1][0], w[1][1]));
        }
    }
    m
}

fn kind_name(m: &mut Map) -> String {
    let own = m.get("$").cloned().unwrap_or_default();
    if let Some((a, _)) = own.split_once(':') {
        return a.to_string();
    }
    if let Some((a, b)) = own.split_once('(') {
        let inner = b.trim_end_matches(')');
        if a != "Reserved" && !inner.chars().all(|c| c.is_ascii_digit()) {
            return a.to_string();
        }
    }
    own
}

pub fn cap(k: &C) -> (String, Map) {
    let mut m = Map::new();
    flat("", k, &mut m);
    let name = kind_name(&mut m);
    match k {
        C::PowerManagementInterface(p) => flat("fn_data", &p.data(), &mut m),
        C::MessageSignaledInterrups(p) => {
            put(&mut m, "fn_capable_vectors", p.message_control.multiple_message_capable.number_of_vectors());
            put(&mut m, "fn_enable_vectors", p.message_control.multiple_message_enable.number_of_vectors());
        }
        C::Sata(p) => put(&mut m, "fn_bar_offset", p.bar_offset.value()),
        C::PciX(p) => {
            put(&mut m, "fn_max_read", p.command.maximum_memory_read_byte_count.value());
            put(&mut m, "fn_max_split", p.command.maximum_outstanding_split_transactions.value());
            put(&mut m, "fn_designed_max_read", p.status.designed_maximum_memory_read_byte_count.value());
            put(&mut m, "fn_designed_max_split", p.status.designed_maximum_outstanding_split_transactions.value());
            put(&mut m, "fn_cumulative_adqs", p.status.designed_maximum_cumulative_read_size.adqs());
            put(&mut m, "fn_cumulative_bytes", p.status.designed_maximum_cumulative_read_size.bytes());
        }
        C::PciXBridge(p) => put(&mut m, "fn_mode_and_frequency", p.secondary_status.secondary_bus_mode_and_frequency()),
        C::Hypertransport(h) => {
            let d = format!("{h:?}");
            let v = match h {
                Ht::Reserved(_) => d.as_str(),
                _ => d.split(['(', ' ', '{']).next().unwrap_or(""),
            };
            put(&mut m, "$", format!("Hypertransport:{v}"));
            put(&mut m, "fn_type", u8::from(h));
            match h {
                Ht::SlaveOrPrimaryInterface(s) => {
                    flat("fn_link_freq_0", &s.link_freq_0(false), &mut m);
                    flat("fn_link_freq_0_ext", &s.link_freq_0(true), &mut m);
                    flat("fn_link_freq_1", &s.link_freq_1(false), &mut m);
                    flat("fn_link_freq_1_ext", &s.link_freq_1(true), &mut m);
                }
                Ht::HostOrSecondaryInterface(s) => {
                    flat("fn_link_freq", &s.link_freq(false), &mut m);
                    flat("fn_link_freq_ext", &s.link_freq(true), &mut m);
                }
                Ht::MsiMapping(s) => put(&mut m, "fn_base_address", num(s.base_address() as u128)),
                Ht::RevisionId(r) => put(&mut m, "fn_raw", u8::from(r)),
                _ => (),
            }
        }
        C::PciExpress(p) => {
            let t = &p.device_type;
            put(&mut m, "fn_is_endpoint", t.is_endpoint());
            put(&mut m, "fn_is_root", t.is_root());
            put(&mut m, "fn_is_downstream_port", t.is_downstream_port());
            let w: f32 = (&p.device.capabilities.captured_slot_power_limit).into();
            put(&mut m, "fn_captured_mw", num((w as f64 * 1000.0).round() as u128));
        }
        C::EnhancedAllocation(e) => {
            drop_under(&mut m, "entries");
            let v: Vec<_> = drain(&e.entries, "entries", &mut m);
            put(&mut m, "entries.#", v.len());
            for (i, e) in v.iter().enumerate() {
                flat(&format!("entries.{i}"), e, &mut m);
            }
        }
        _ => (),
    }
    (name, m)
}

fn join<I: Iterator + Clone>(it: I, name: &str, m: &mut Map, f: impl Fn(I::Item) -> String) -> String
where
    I::Item: Debug,
{
    drain(&it, name, m).into_iter().map(|x| f(x) + ",").collect()
}
pub fn digits(s: String) -> String {
    s.chars().filter(|c| c.is_ascii_digit()).collect()
}

fn vc(v: &VirtualChannel, m: &mut Map) {
    drop_under(m, "data");
    put(m, "fn_entry_bits", v.port_vc_capability_1.port_arbitration_table_entry_size.bits());
    let t = join(v.vc_arbitration_table(), "vc table", m, |e| e.vc_id.to_string());
    put(m, "fn_vat", t);
    let e: Vec<_> = drain(&v.extended_virtual_channels(), "virtual channels", m);
    put(m, "fn_evc.#", e.len());
    for (i, e) in e.iter().enumerate() {
        let p = format!("fn_evc.{i}");
        match e {
            Ok(e) => {
                flat(&p, e, m);
                let t = join(v.port_arbitration_table(e), "port table", m, |t| digits(format!("{t:?}")));
                put(m, &format!("{p}.pat"), t);
            }
            Err(e) => put(m, &p, format!("error {e}")),
        }
    }
}

fn mfvc(v: &MultifunctionVirtualChannel, m: &mut Map) {
    drop_under(m, "extended_virtual_channels");
    drop_under(m, "vc_arbitration_table");
    let t = match &v.vc_arbitration_table {
        None => "None".into(),
        Some(t) => "Some:".to_string() + &join(t.clone(), "vc table", m, |e| e.vc_id.to_string()),
    };
    put(m, "fn_vat", t);
    let e: Vec<_> = drain(&v.extended_virtual_channels, "virtual channels", m);
    put(m, "fn_evc.#", e.len());
    for (i, e) in e.iter().enumerate() {
        let p = format!("fn_evc.{i}");
        flat(&p, e, m);
        drop_under(m, &format!("{p}.function_arbitration_table"));
        let t = match &e.function_arbitration_table {
            None => "None".into(),
            Some(t) => "Some:".to_string() + &join(t.clone(), "function table", m, |t| digits(format!("{t:?}"))),
        };
        put(m, &format!("{p}.fat"), t);
        let raw: [u8; MfEvc::SIZE] = e.clone().into();
        let d = |o: usize| num(u32::from_le_bytes([raw[o], raw[o + 1], raw[o + 2], raw[o + 3]]) as u128);
        put(m, &format!("{p}.raw"), format!("{} {} {}", d(0), d(4), d(8)));
    }
}

pub fn ecap(k: &X) -> (String, Map) {
    use pcics::capabilities::pci_express::LinkWidth;
    let mut m = Map::new();
    match k {
        // iterator-like values: only their elements matter
        X::ResizableBar(_) | X::VfResizableBar(_) => {
            let mut t = Map::new();
            flat("", k, &mut t);
            m.insert("$".into(), t.remove("$").unwrap_or_default());
        }
        _ => flat("", k, &mut m),
    }
    let name = kind_name(&mut m);
    match k {
        X::VirtualChannel(v) | X::VirtualChannelMfvcPresent(v) => vc(v, &mut m),
        X::MultifunctionVirtualChannel(v) => mfvc(v, &mut m),
        X::RootComplexLinkDeclaration(r) => {
            let state = m.get("link_entries.state").cloned();
            drop_under(&mut m, "link_entries");
            if let Some(s) = state {
                m.insert("link_entries.state".into(), s);
            }
            let v: Vec<_> = drain(&r.link_entries, "link entries", &mut m);
            put(&mut m, "fn_le.#", v.len());
            for (i, e) in v.iter().enumerate() {
                flat(&format!("fn_le.{i}"), e, &mut m);
                let raw: [u32; 2] = e.link_address.clone().into();
                put(&mut m, &format!("fn_le.{i}.raw"), format!("{} {}", num(raw[0] as u128), num(raw[1] as u128)));
            }
        }
        X::AccessControlServices(a) => {
            drop_under(&mut m, "data");
            let v = drain(&a.egress_control_vectors(), "egress vector", &mut m);
            let s: String = v.into_iter().map(|b| if b { '1' } else { '0' }).collect();
            put(&mut m, "fn_ecv", s);
        }
        X::SingleRootIoVirtualization(s) => {
            drop_under(&mut m, "base_addresses");
            bars(&s.base_addresses, &mut m);
        }
        X::ResizableBar(r) | X::VfResizableBar(r) => {
            let v: Vec<_> = drain(r, "resizable bars", &mut m);
            put(&mut m, "fn_entries.#", v.len());
            for (i, e) in v.iter().enumerate() {
                let p = format!("fn_entries.{i}");
                flat(&p, e, &mut m);
                let s: String =
                    (20..64).map(|p| if e.is_function_supports_power_of_two(p) { '1' } else { '0' }).collect();
                put(&mut m, &format!("{p}.sizes"), s);
                let out = [0, 1, 19, 64, 65, 100, 255]
                    .iter()
                    .any(|p| e.is_function_supports_power_of_two(*p));
                put(&mut m, &format!("{p}.other_sizes"), out);
            }
        }
        X::LatencyToleranceReporting(l) => {
            put(&mut m, "fn_snoop_ns", num(l.max_snoop_latency.value() as u128));
            put(&mut m, "fn_no_snoop_ns", num(l.max_no_snoop_latency.value() as u128));
            put(&mut m, "fn_snoop_raw", u16::from(l.max_snoop_latency.clone()));
            put(&mut m, "fn_no_snoop_raw", u16::from(l.max_no_snoop_latency.clone()));
        }
        X::SecondaryPciExpress(s) => {
            drop_under(&mut m, "ecl_data");
            let lanes = |w: u8| -> Vec<_> { s.equalization_control_lanes(LinkWidth::from(w)).take(MAX).collect() };
            let v = lanes(63);
            let mut it = s.equalization_control_lanes(LinkWidth::X2);
            it.by_ref().take(MAX).for_each(drop);
            let ok = if it.next().is_some() || it.next().is_some() { "lanes: yields again after its end" } else { "ok" };
            put(&mut m, "iter", ok);
            put(&mut m, "fn_lanes.#", v.len());
            for (i, e) in v.iter().enumerate() {
                flat_as(&format!("fn_lanes.{i}"), e, &LANE, &mut m);
            }
            let (mut counts, mut same) = (String::new(), true);
            for w in 0..64 {
                let u = lanes(w);
                counts += &format!("{},", u.len());
                same &= u[..] == v[..u.len().min(v.len())];
            }
            put(&mut m, "fn_lanes_counts", counts);
            put(&mut m, "fn_lanes_same", same);
        }
        X::ProtocolMultiplexing(p) => {
            drop_under(&mut m, "pmux_protocol_array");
            let v: Vec<_> = drain(&p.pmux_protocol_array, "protocols", &mut m);
            put(&mut m, "fn_array.#", v.len());
            for (i, e) in v.iter().enumerate() {
                flat(&format!("fn_array.{i}"), e, &mut m);
                let raw: [u8; 4] = e.clone().into();
                put(&mut m, &format!("fn_array.{i}.raw"), num(u32::from_le_bytes(raw) as u128));
            }
        }
        X::DownstreamPortContainment(d) => {
            put(&mut m, "fn_trigger_reason", d.dpc_status.dpc_trigger_reason.value());
            put(&mut m, "fn_trigger_reason_ext", d.dpc_status.dpc_trigger_reason.extension_value());
        }
        X::L1PmSubstates(l) => {
            flat("fn_port_t_power_on_us", &l.l1_pm_substates_capabilities.port_t_power_on.value(), &mut m);
            flat("fn_t_power_on_us", &l.l1_pm_substates_control_2.t_power_on.value(), &mut m);
            put(&mut m, "fn_threshold_ns", num(l.l1_pm_substates_control_1.ltr_l1_2_threshold.value() as u128));
            put(&mut m, "fn_raw_cap", num(u32::from(l.l1_pm_substates_capabilities.clone()) as u128));
            put(&mut m, "fn_raw_ctl1", num(u32::from(l.l1_pm_substates_control_1.clone()) as u128));
            put(&mut m, "fn_raw_ctl2", num(u32::from(l.l1_pm_substates_control_2.clone()) as u128));
        }
        X::ReadinessTimeReporting(r) => {
            put(&mut m, "fn_reset_ns", num(r.reset_time.actual_time_value() as u128));
            put(&mut m, "fn_dl_up_ns", num(r.dl_up_time.actual_time_value() as u128));
            put(&mut m, "fn_flr_ns", num(r.flr_time.actual_time_value() as u128));
            put(&mut m, "fn_d3hot_ns", num(r.d3hot_to_d0_time.actual_time_value() as u128));
        }
        X::PowerBudgeting(p) => {
            put(&mut m, "fn_milli", num((p.data.data_scale.multiplier() * 1000.0).round() as u128));
        }
        _ => (),
    }
    (name, m)
}
