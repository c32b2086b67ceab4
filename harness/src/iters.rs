//! Iterators and structures decoded directly from bytes, and comparisons of
//! values.
use crate::flat::{bytes, flat, flat_as, num, Map, LANE};
use crate::gen::*;
use crate::observe::{digits, drain};
use crate::rec::{Dev, Rec};
use crate::rng::Rng;
use pcics::capabilities::enhanced_allocation::EnhancedAllocationEntries;
use pcics::extended_capabilities::{
    access_control_services::EgressControlVectors, multifunction_virtual_channel::FunctionArbitrationTable,
    protocol_multiplexing::{PmuxProtocolArray, PmuxProtocolArrayEntry}, resizable_bar::ResizableBar, root_complex_link_declaration::{LinkEntries, LinkEntry},
    secondary_pci_express::EqualizationControlLanes, virtual_channel::*,
};
use pcics::header::BaseAddresses;
use pcics::{Capabilities, ExtendedCapabilities, Header};
use std::fmt::Debug;

const MAX: usize = 3000;

/// The elements of an iterator, under their positions.
fn elems<I: Iterator + Clone>(it: I, name: &str, show: impl Fn(&str, &I::Item, &mut Map)) -> Map
where
    I::Item: Debug,
{
    let mut m = Map::new();
    let v = drain(&it, name, &mut m);
    m.insert("#".into(), v.len().to_string());
    for (i, e) in v.iter().enumerate() {
        show(&i.to_string(), e, &mut m);
    }
    m
}
fn plain<T: Debug>(p: &str, e: &T, m: &mut Map) {
    flat(p, e, m)
}
fn digit<T: Debug>(p: &str, e: &T, m: &mut Map) {
    m.insert(p.into(), digits(format!("{e:?}")));
}
fn sub(p: &str, name: &str) -> String {
    if p.is_empty() {
        name.into()
    } else {
        format!("{p}.{name}")
    }
}
fn show_pmux(p: &str, e: &PmuxProtocolArrayEntry, m: &mut Map) {
    flat(p, e, m);
    let raw: [u8; 4] = e.clone().into();
    m.insert(sub(p, "raw"), num(u32::from_le_bytes(raw) as u128));
}
fn show_link(p: &str, e: &LinkEntry, m: &mut Map) {
    flat(p, e, m);
    let raw: [u32; 2] = e.link_address.clone().into();
    m.insert(sub(p, "raw"), format!("{} {}", num(raw[0] as u128), num(raw[1] as u128)));
}
fn dwords<const N: usize>(b: &[u8]) -> [u32; N] {
    let mut r = [0; N];
    for i in 0..N {
        r[i] = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
    }
    r
}

const KINDS: [&str; 11] = ["ea", "vat", "pat", "fat", "ecv", "pmux", "le", "evc", "rebar", "bar", "lanes"];
fn observe(n: &str, b: &[u8], v: usize) -> Map {
    match n {
        "ea" => elems(EnhancedAllocationEntries::new(b, v as u8), n, plain),
        "vat" => elems(VcArbitrationTable::new(b), n, digit),
        "pat" => elems(PortArbitrationTable::new(b, v), n, digit),
        "fat" => elems(FunctionArbitrationTable::new(b, v), n, digit),
        "ecv" => elems(EgressControlVectors::new(b, v), n, plain),
        "pmux" => elems(PmuxProtocolArray::new(b), n, show_pmux),
        "le" => {
            let it = LinkEntries::new(b, v as u8);
            let mut shown = Map::new();
            flat("state", &it.state, &mut shown);
            let mut m = elems(it, n, show_link);
            m.extend(shown);
            m
        }
        "evc" => elems(ExtendedVirtualChannels::new(b, v as u8), n, |p, e, m| match e {
            Ok(e) => flat(p, e, m),
            Err(e) => {
                m.insert(p.into(), format!("error {e}"));
            }
        }),
        "rebar" => elems(ResizableBar(b.chunks(8)), n, plain),
        "bar" => match v {
            1 => elems(BaseAddresses::new(dwords::<1>(b)), n, plain),
            2 => elems(BaseAddresses::new(dwords::<2>(b)), n, plain),
            3 => elems(BaseAddresses::new(dwords::<3>(b)), n, plain),
            _ => elems(BaseAddresses::new(dwords::<6>(b)), n, plain),
        },
        _ => {
            let mut m = Map::new();
            let v: Vec<_> = EqualizationControlLanes::new(b).take(MAX).collect();
            m.insert("#".into(), v.len().to_string());
            m.insert("iter".into(), "ok".into());
            for (i, e) in v.iter().enumerate() {
                flat_as(&i.to_string(), e, &LANE, &mut m);
            }
            m
        }
    }
}
fn eq_after<I: Iterator + PartialEq>(mut a: I, i: usize, mut b: I, j: usize) -> bool {
    for _ in 0..i {
        a.next();
    }
    for _ in 0..j {
        b.next();
    }
    let e = a == b;
    // symmetric, and the two notions agree
    assert!(e == (b == a) && e != (a != b), "comparison is not symmetric");
    e
}
fn compare(n: &str, x: (&[u8], usize, usize), y: (&[u8], usize, usize)) -> bool {
    let ((a, v, i), (b, w, j)) = (x, y);
    match n {
        "ea" => eq_after(EnhancedAllocationEntries::new(a, v as u8), i, EnhancedAllocationEntries::new(b, w as u8), j),
        "vat" => eq_after(VcArbitrationTable::new(a), i, VcArbitrationTable::new(b), j),
        "pat" => eq_after(PortArbitrationTable::new(a, v), i, PortArbitrationTable::new(b, w), j),
        "fat" => eq_after(FunctionArbitrationTable::new(a, v), i, FunctionArbitrationTable::new(b, w), j),
        "ecv" => eq_after(EgressControlVectors::new(a, v), i, EgressControlVectors::new(b, w), j),
        "pmux" => eq_after(PmuxProtocolArray::new(a), i, PmuxProtocolArray::new(b), j),
        "le" => eq_after(LinkEntries::new(a, v as u8), i, LinkEntries::new(b, w as u8), j),
        "evc" => eq_after(ExtendedVirtualChannels::new(a, v as u8), i, ExtendedVirtualChannels::new(b, w as u8), j),
        "rebar" => eq_after(ResizableBar(a.chunks(8)), i, ResizableBar(b.chunks(8)), j),
        _ => match v {
            1 => eq_after(BaseAddresses::new(dwords::<1>(a)), i, BaseAddresses::new(dwords::<1>(b)), j),
            2 => eq_after(BaseAddresses::new(dwords::<2>(a)), i, BaseAddresses::new(dwords::<2>(b)), j),
            3 => eq_after(BaseAddresses::new(dwords::<3>(a)), i, BaseAddresses::new(dwords::<3>(b)), j),
            _ => eq_after(BaseAddresses::new(dwords::<6>(a)), i, BaseAddresses::new(dwords::<6>(b)), j),
        },
    }
}

/// A script of calls on an iterator and its duplicate.
pub fn play(rec: &mut Rec, n: &str, b: &[u8], v: usize, ops: &[usize]) {
    let x = (n, b, v);
    macro_rules! p {
        ($e:expr) => {
            rec.iter_script(x, || $e, ops, |e, m| flat("", e, m))
        };
    }
    match n {
        "ea" => p!(EnhancedAllocationEntries::new(b, v as u8)),
        "vat" => rec.iter_script(x, || VcArbitrationTable::new(b), ops, |e, m| digit("$", e, m)),
        "pat" => rec.iter_script(x, || PortArbitrationTable::new(b, v), ops, |e, m| digit("$", e, m)),
        "fat" => rec.iter_script(x, || FunctionArbitrationTable::new(b, v), ops, |e, m| digit("$", e, m)),
        "ecv" => p!(EgressControlVectors::new(b, v)),
        "pmux" => rec.iter_script(x, || PmuxProtocolArray::new(b), ops, |e, m| show_pmux("", e, m)),
        "le" => rec.iter_script(x, || LinkEntries::new(b, v as u8), ops, |e, m| show_link("", e, m)),
        "evc" => rec.iter_script(x, || ExtendedVirtualChannels::new(b, v as u8), ops, |e, m| match e {
            Ok(e) => flat("", e, m),
            Err(e) => {
                m.insert("$".into(), format!("error {e}"));
            }
        }),
        "rebar" => p!(ResizableBar(b.chunks(8))),
        _ => match v {
            1 => p!(BaseAddresses::new(dwords::<1>(b))),
            2 => p!(BaseAddresses::new(dwords::<2>(b))),
            3 => p!(BaseAddresses::new(dwords::<3>(b))),
            _ => p!(BaseAddresses::new(dwords::<6>(b))),
        },
    }
}
pub fn scripts(rec: &mut Rec, rng: &mut Rng, scale: usize) {
    for n in &KINDS[..10] {
        for _ in 0..60 * scale {
            let (b, v) = make(rng, n);
            let mut ops = vec![];
            let mut dup = false;
            for _ in 0..rng.pick(&[4usize, 12, 30]) {
                let h = if dup { 1 + rng.below(2) } else { 1 };
                ops.push(match rng.below(12) {
                    0 if !dup => {
                        dup = true;
                        0
                    }
                    1 => 2 + h,
                    2 => 10 + h,
                    3 => 10 * rng.pick(&[2usize, 3, 8, 20]) + h,
                    _ => h,
                });
            }
            ops.push(3);
            play(rec, n, &b, v, &ops);
        }
    }
}

/// Bytes and argument of an iterator.
fn make(rng: &mut Rng, n: &str) -> (Vec<u8>, usize) {
    let k = rng.below(7);
    match n {
        "ea" => {
            let l = rng.below(90);
            let mut b = rng.regs(l);
            let mut o = 0;
            while o + 12 <= l {
                let c = 2 + (b[o + 4] >> 1 & 1) + (b[o + 8] >> 1 & 1);
                if rng.chance(4, 5) {
                    b[o] = b[o] & 0xf8 | c;
                }
                o += 4 * (b[o] as usize % 8 + 1);
            }
            (b, rng.pick(&[0usize, 1, 2, 3, 5, 63, 255]))
        }
        "vat" => (rng.regs(k * 3), 0),
        "pat" | "fat" => (rng.regs(k * 3), 1 << rng.below(4)),
        "ecv" => (rng.regs(k * 4 + rng.clone().below(4)), rng.pick(&[0usize, 1, 31, 32, 33, 64, 100, 255, 256])),
        "pmux" => (rng.regs(k * 4 + rng.clone().below(4)), 0),
        "le" => (rng.regs(k * 16 + rng.clone().below(17)), rng.pick(&[0usize, 1, 2, 3, 6, 7, 255])),
        "evc" => (rng.regs(k * 12 + rng.clone().below(13)), rng.below(8)),
        "rebar" => (rng.regs(k * 8), 0),
        "bar" => {
            let v = rng.pick(&[1usize, 2, 3, 6]);
            let mut b = rng.regs(4 * v);
            for i in 0..v {
                match rng.below(4) {
                    0 => b[4 * i..4 * i + 4].fill(0),
                    1 => b[4 * i] = b[4 * i] & 0xf8 | 4,
                    _ => (),
                }
            }
            (b, v)
        }
        _ => (rng.regs(k * 5), 0),
    }
}
/// Contents, argument and place of an iterator that is to have as many
/// elements left as that of (b, v) after i calls, though it stands elsewhere
/// (the place returned is that of (b, v)).
fn ahead(rng: &mut Rng, n: &str, b: &[u8], v: usize, j: usize) -> (Vec<u8>, usize, usize) {
    let d = 1 + rng.below(4);
    let (bytes, by_count, per) = match n {
        "ecv" => (if rng.chance(1, 3) { 4 } else { 0 }, true, 1),
        "ea" => (if rng.chance(1, 2) { 12 } else { 0 }, true, 1),
        "le" => (if rng.chance(3, 4) { 16 } else { 0 }, true, 1),
        "evc" => (if rng.chance(3, 4) { 12 } else { 0 }, true, 1),
        "vat" => (1, false, 2),
        "pat" | "fat" => (1, false, 8 / v.max(1)),
        "pmux" => (4, false, 1),
        "rebar" => (8, false, 1),
        _ => (0, false, 0),
    };
    let steps = if n == "ecv" && bytes > 0 { 32 } else { d * per };
    let mut c = b[(bytes * if n == "ecv" { 1 } else { d }).min(b.len())..].to_vec();
    if !c.is_empty() && rng.chance(1, 2) {
        let k = rng.below(c.len().min(6));
        c[k] ^= 1 << rng.below(8);
    }
    (c, if by_count { v.saturating_sub(steps) } else { v }, j + steps)
}
/// The same with a bit changed, or several, or cut short.
fn vary(rng: &mut Rng, n: &str, b: &[u8], v: usize) -> (Vec<u8>, usize) {
    let (mut c, mut w) = (b.to_vec(), v);
    match rng.below(8) {
        0 => (),
        1 if n == "pat" || n == "fat" => w = 1 << rng.below(4),
        1 if n == "ea" || n == "ecv" || n == "evc" || n == "le" => w = (v + 1) % 8,
        2 if n != "bar" => c.truncate(rng.below(c.len() + 1) / 4 * 4),
        3 => c = rng.regs(b.len()),
        4 if c.len() > 8 => {
            let k = rng.below(c.len() / 8 + 1) * 4;
            c.rotate_left(k);
        }
        _ => {
            if !c.is_empty() {
                let k = rng.below(c.len());
                c[k] ^= 1 << rng.below(8);
            }
        }
    }
    (c, w)
}

pub fn iters(rec: &mut Rec, rng: &mut Rng, only: &[&str], scale: usize) {
    for n in KINDS.iter().filter(|k| only.is_empty() || only.contains(k)) {
        for _ in 0..200 * scale {
            let (b, v) = make(rng, n);
            rec.pure("it", format!(",\"n\":\"{n}\",\"b\":{},\"v\":{v}", bytes(&b)), || Ok(observe(n, &b, v)));
        }
    }
}
fn verdict(e: bool) -> Result<Map, String> {
    Ok([("eq".to_string(), e.to_string())].into_iter().collect())
}
pub fn equality(rec: &mut Rec, rng: &mut Rng, scale: usize) {
    for n in &KINDS[..10] {
        for _ in 0..250 * scale {
            let (a, v) = make(rng, n);
            let (b, w) = vary(rng, n, &a, v);
            let mut i = rng.pick(&[0usize, 0, 1, 2, 3, 5, 9]);
            let j = if rng.chance(3, 4) { i } else { rng.below(9) };
            let (mut b, mut w) = (b, w);
            if rng.chance(1, 3) {
                (b, w, i) = ahead(rng, n, &a, v, j);
            }
            let x = format!(
                ",\"n\":\"{n}\",\"b\":{},\"v\":{v},\"i\":{i},\"b2\":{},\"v2\":{w},\"j\":{j}",
                bytes(&a), bytes(&b)
            );
            rec.pure("eqit", x, || verdict(compare(n, (&a, v, i), (&b, w, j))));
        }
    }
    // headers
    for _ in 0..300 * scale {
        let (l, p) = (rng.pick(&[0u8, 0, 1, 1, 2, 3]), rng.byte());
        let a = header(rng, l, p);
        let b = vary(rng, "bar", &a, 0).0;
        let x = format!(",\"w\":\"hdr\",\"id\":0,\"h\":[],\"b\":{},\"b2\":{}", bytes(&a), bytes(&b));
        rec.pure("eqs", x, || {
            let (a, b) = (Header::try_from(a.as_slice()), Header::try_from(b.as_slice()));
            verdict(a.unwrap() == b.unwrap())
        });
    }
    // walks
    for k in 0..190 * scale {
        let w = if k % 2 == 0 || k >= 150 * scale { "cap" } else { "ecap" };
        // the last ones: a structure that different headers give different meanings
        let a = if k >= 150 * scale {
            let id = rng.pick(&[9u8, 9, 9, 7, 20]);
            let mut d = cap_struct(rng, id, cap_len(id), Mode::Random);
            d[1] = 0;
            let l = rng.pick(&[0u8, 0, 1]);
            let mut h = header(rng, l, 0x40);
            h[..4].copy_from_slice(&[0xf4, 0x1a, rng.byte() & 0x7f, 0x10]);
            Dev { h, d, x: vec![] }
        } else if k % 2 == 0 { crate::suites::cap_graph(rng) } else { crate::suites::ecap_graph(rng) };
        if a.d.len() + a.x.len() > 400 {
            continue;
        }
        let mut b = a.clone();
        match rng.below(4) {
            _ if k >= 150 * scale => match rng.below(4) {
                0 => b.h[14] ^= 1,
                1 => b.h[rng.below(2)] ^= 1 << rng.below(8),
                2 => b.h[2 + rng.below(2)] ^= 1 << rng.below(8),
                _ => b.h[4 + rng.below(10)] ^= 1 << rng.below(8),
            },
            0 => b.h = vary(rng, "bar", &a.h, 0).0,
            1 if k % 2 == 0 => b.d = vary(rng, "", &a.d, 0).0,
            1 => b.x = vary(rng, "", &a.x, 0).0,
            _ => (),
        }
        let i = rng.pick(&[0usize, 0, 1, 2, 3, 5, 9]);
        let j = if rng.chance(3, 4) { i } else { rng.below(9) };
        let dev = |d: &Dev| format!("{{\"h\":{},\"d\":{},\"x\":{}}}", bytes(&d.h), bytes(&d.d), bytes(&d.x));
        let x = format!(",\"w\":\"{w}\",\"i\":{i},\"j\":{j},\"b\":{},\"b2\":{}", dev(&a), dev(&b));
        rec.pure("eqw", x, || {
            let (g, h) = (Header::try_from(a.h.as_slice()), Header::try_from(b.h.as_slice()));
            let (g, h) = (g.map_err(|e| e.to_string())?, h.map_err(|e| e.to_string())?);
            verdict(match w {
                "cap" => eq_after(Capabilities::new(&a.d, &g), i, Capabilities::new(&b.d, &h), j),
                _ => eq_after(ExtendedCapabilities::new(&a.x), i, ExtendedCapabilities::new(&b.x), j),
            })
        });
    }
    // what walks report: structures, errors, ends
    for k in 0..260 * scale {
        let w = if k % 2 == 0 { "cap" } else { "ecap" };
        let mut a = match k % 8 {
            0 => crate::suites::cap_graph(rng),
            1 => crate::suites::ecap_graph(rng),
            _ if w == "cap" => {
                let id = rng.pick(crate::suites::BODIED);
                let mut c = cap_struct(rng, id, cap_len(id), Mode::Random);
                c[1] = rng.pick(&[0u8, 4, 0x40, 0x41]);
                let l = rng.pick(&[0u8, 1]);
                Dev { h: header(rng, l, 0x40), d: c, x: vec![] }
            }
            _ => {
                let id = rng.pick(&crate::suites::ebodied());
                let n = ecap_len(id, rng);
                let mut c = ecap_struct(rng, id, n, Mode::Random);
                c[3] = 0;
                Dev { h: header(rng, 0, 0), d: vec![], x: c }
            }
        };
        if k % 8 > 1 && rng.chance(2, 3) {
            let m = rng.pick(&[12, 96]);
            let n = 4 + rng.below(m);
            a.d.truncate(n);
            a.x.truncate(n);
        }
        if a.d.len() + a.x.len() > 300 {
            continue;
        }
        let mut b = a.clone();
        let r = if w == "cap" { &mut b.d } else { &mut b.x };
        match rng.below(6) {
            0 => r.truncate(rng.below(r.len() + 1)),
            1 if w == "cap" && r.len() > 2 => r[0] = rng.pick(crate::suites::BODIED),
            1 if r.len() > 4 => r[0] = 1 + rng.below(0x24) as u8,
            2 => {
                // the same a double word further on
                r.splice(0..0, [0; 4]);
                b.h[0x34] = 0x44;
                if w == "ecap" {
                    r[..4].copy_from_slice(&[0x25, 0, 0x41, 0x10]);
                }
            }
            3 if r.len() > 4 => r[2] ^= 1 << rng.below(8),
            _ if !r.is_empty() => {
                let k = rng.below(r.len());
                r[k] ^= 1 << rng.below(8);
            }
            _ => (),
        }
        let i = rng.pick(&[0usize, 0, 0, 1]);
        let j = rng.pick(&[i, i, 0, 1]);
        let dev = |d: &Dev| format!("{{\"h\":{},\"d\":{},\"x\":{}}}", bytes(&d.h), bytes(&d.d), bytes(&d.x));
        let x = format!(",\"w\":\"{w}\",\"i\":{i},\"j\":{j},\"b\":{},\"b2\":{}", dev(&a), dev(&b));
        rec.pure("eqr", x, || {
            let (g, h) = (Header::try_from(a.h.as_slice()), Header::try_from(b.h.as_slice()));
            let (g, h) = (g.map_err(|e| e.to_string())?, h.map_err(|e| e.to_string())?);
            verdict(match w {
                "cap" => Capabilities::new(&a.d, &g).skip(i).next() == Capabilities::new(&b.d, &h).skip(j).next(),
                _ => ExtendedCapabilities::new(&a.x).skip(i).next() == ExtendedCapabilities::new(&b.x).skip(j).next(),
            })
        });
    }
    // structures, one bit (or a few) apart
    for &id in crate::suites::BODIED {
        for _ in 0..60 * scale {
            let c = cap_struct(rng, id, cap_len(id), Mode::Random);
            let d = flip(rng, &c, 2);
            let l = rng.pick(&[0u8, 1]);
            let dev = Dev { h: header(rng, l, 0x40), ..Default::default() };
            let x = format!(
                ",\"w\":\"cap\",\"id\":{id},\"h\":{},\"b\":{},\"b2\":{}",
                bytes(&dev.h), bytes(&c[2..]), bytes(&d[2..])
            );
            let h = Header::try_from(dev.h.as_slice()).unwrap();
            let (c, d) = (zero_next(&c), zero_next(&d));
            let one = |s: &[u8]| matches!(Capabilities::new(s, &h).next(), Some(Ok(_)));
            let both = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&c) && one(&d)));
            if both.unwrap_or(true) {
                rec.pure("eqs", x, || {
                    let (a, b) = (Capabilities::new(&c, &h).next().unwrap(), Capabilities::new(&d, &h).next().unwrap());
                    verdict(a.unwrap() == b.unwrap())
                });
            }
        }
    }
    for id in crate::suites::ebodied() {
        for _ in 0..60 * scale {
            let n = ecap_len(id, rng);
            let mut c = ecap_struct(rng, id, n, Mode::Random);
            c[2] = 1;
            c[3] = 0;
            let d = flip(rng, &c, 4);
            let x = format!(",\"w\":\"ecap\",\"id\":{id},\"h\":[],\"b\":{},\"b2\":{}", bytes(&c), bytes(&d));
            let one = |s: &[u8]| matches!(ExtendedCapabilities::new(s).next(), Some(Ok(_)));
            let both = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&c) && one(&d)));
            if both.unwrap_or(true) {
                rec.pure("eqs", x, || {
                    let (a, b) = (ExtendedCapabilities::new(&c).next().unwrap(), ExtendedCapabilities::new(&d).next().unwrap());
                    verdict(a.unwrap() == b.unwrap())
                });
            }
        }
    }
}
fn zero_next(c: &[u8]) -> Vec<u8> {
    let mut c = c.to_vec();
    c[1] = 0;
    c
}
fn flip(rng: &mut Rng, c: &[u8], from: usize) -> Vec<u8> {
    let mut d = c.to_vec();
    for _ in 0..rng.pick(&[0usize, 1, 1, 1, 1, 2, 8]) {
        let k = from + rng.below(d.len() - from);
        d[k] ^= 1 << rng.below(8);
    }
    d
}

/// One structure decoded on its own, by its public decoder.
fn alone_cap(id: u8, b: &[u8], h: &Header) -> Result<Map, String> {
    use pcics::capabilities::*;
    use CapabilityKind as C;
    let c = &b[2.min(b.len())..];
    macro_rules! d {
        ($k:ident, $t:ty) => {
            <$t>::try_from(c).map(C::$k).map_err(|e| e.to_string())
        };
    }
    let bridge = matches!(h.header_type, pcics::header::HeaderType::Bridge(_));
    let k = match id {
        1 => d!(PowerManagementInterface, PowerManagementInterface),
        2 => d!(AcceleratedGraphicsPort, AcceleratedGraphicsPort),
        3 => d!(VitalProductData, VitalProductData),
        4 => d!(SlotIdentification, SlotIdentification),
        5 => d!(MessageSignaledInterrups, MessageSignaledInterrups),
        7 if bridge => d!(PciXBridge, pci_x::PciXBridge),
        7 => d!(PciX, pci_x::PciX),
        8 => d!(Hypertransport, Hypertransport),
        9 => VendorSpecific::try_new(c, h).map(C::VendorSpecific).map_err(|e| e.to_string()),
        10 => d!(DebugPort, DebugPort),
        13 => d!(BridgeSubsystemVendorId, BridgeSubsystemVendorId),
        16 => d!(PciExpress, PciExpress),
        17 => d!(MsiX, MsiX),
        18 => d!(Sata, Sata),
        19 => d!(AdvancedFeatures, AdvancedFeatures),
        20 => EnhancedAllocation::try_new(c, h).map(C::EnhancedAllocation).map_err(|e| e.to_string()),
        _ => d!(FlatteningPortalBridge, FlatteningPortalBridge),
    }?;
    Ok(crate::observe::cap(&k).1)
}
fn alone_ecap(id: u16, b: &[u8]) -> Result<Map, String> {
    use pcics::extended_capabilities::*;
    use ExtendedCapabilityKind as X;
    let c = &b[4.min(b.len())..];
    macro_rules! d {
        ($s:ident, $k:ident, $t:ident) => {
            <$t>::try_from($s).map(X::$k).map_err(|e| e.to_string())
        };
    }
    let k = match id {
        0x01 => d!(c, AdvancedErrorReporting, AdvancedErrorReporting),
        0x02 => d!(c, VirtualChannel, VirtualChannel),
        0x03 => d!(c, DeviceSerialNumber, DeviceSerialNumber),
        0x04 => d!(c, PowerBudgeting, PowerBudgeting),
        0x05 => d!(c, RootComplexLinkDeclaration, RootComplexLinkDeclaration),
        0x06 => d!(c, RootComplexInternalLinkControl, RootComplexInternalLinkControl),
        0x07 => d!(c, RootComplexEventCollectorEndpointAssociation, RootComplexEventCollectorEndpointAssociation),
        0x08 => d!(b, MultifunctionVirtualChannel, MultifunctionVirtualChannel),
        0x09 => d!(c, VirtualChannelMfvcPresent, VirtualChannel),
        0x0a => d!(b, RootComplexRegisterBlockHeader, RootComplexRegisterBlockHeader),
        0x0b => d!(c, VendorSpecificExtendedCapability, VendorSpecificExtendedCapability),
        0x0c => d!(b, ConfigurationAccessCorrelation, ConfigurationAccessCorrelation),
        0x0d => d!(c, AccessControlServices, AccessControlServices),
        0x0e => d!(c, AlternativeRoutingIdInterpretation, AlternativeRoutingIdInterpretation),
        0x0f => d!(c, AddressTranslationServices, AddressTranslationServices),
        0x10 => d!(c, SingleRootIoVirtualization, SingleRootIoVirtualization),
        0x12 => d!(b, Multicast, Multicast),
        0x13 => d!(c, PageRequestInterface, PageRequestInterface),
        0x15 => d!(b, ResizableBar, ResizableBar),
        0x16 => d!(b, DynamicPowerAllocation, DynamicPowerAllocation),
        0x17 => d!(c, TphRequester, TphRequester),
        0x18 => d!(c, LatencyToleranceReporting, LatencyToleranceReporting),
        0x19 => d!(c, SecondaryPciExpress, SecondaryPciExpress),
        0x1a => d!(b, ProtocolMultiplexing, ProtocolMultiplexing),
        0x1b => d!(c, ProcessAddressSpaceId, ProcessAddressSpaceId),
        0x1c => d!(b, LnRequester, LnRequester),
        0x1d => d!(c, DownstreamPortContainment, DownstreamPortContainment),
        0x1e => d!(c, L1PmSubstates, L1PmSubstates),
        0x1f => d!(c, PrecisionTimeMeasurement, PrecisionTimeMeasurement),
        0x20 => d!(b, PciExpressOverMphy, PciExpressOverMphy),
        0x21 => d!(b, FrsQueuing, FrsQueuing),
        0x22 => d!(b, ReadinessTimeReporting, ReadinessTimeReporting),
        0x23 => d!(b, DesignatedVendorSpecificExtendedCapability, DesignatedVendorSpecificExtendedCapability),
        _ => d!(b, VfResizableBar, ResizableBar),
    }?;
    Ok(crate::observe::ecap(&k).1)
}
pub fn alone(rec: &mut Rec, rng: &mut Rng, scale: usize) {
    for _ in 0..40 * scale {
        let l = rng.pick(&[0u8, 1, 2, 3, 0x7f]);
        let p = rng.byte();
        let h = header(rng, l, p);
        rec.pure("ahdr", format!(",\"b\":{}", bytes(&h)), || {
            let mut a = [0; 64];
            a.copy_from_slice(&h);
            Ok(crate::observe::header(&Header::from(a)))
        });
    }
    for &id in crate::suites::BODIED {
        for _ in 0..16 * scale {
            let l = rng.pick(&[0u8, 0, 1, 1, 2, 3, 0x7f]);
            let hb = header(rng, l, 0x40);
            let n = if rng.chance(1, 3) { 2 + rng.below(cap_len(id)) } else { cap_len(id) };
            let mut b = cap_struct(rng, id, n.max(4), Mode::Random);
            b.truncate(n);
            rec.pure("acap", format!(",\"v\":{id},\"b\":{},\"b2\":{}", bytes(&b), bytes(&hb)), || {
                let mut a = [0; 64];
                a.copy_from_slice(&hb);
                alone_cap(id, &b, &Header::from(a))
            });
        }
    }
    for id in crate::suites::ebodied() {
        for _ in 0..16 * scale {
            let full = ecap_len(id, rng);
            let mut b = ecap_struct(rng, id, full, Mode::Random);
            if rng.chance(1, 3) {
                b.truncate(4 + rng.below(full));
            }
            rec.pure("aecap", format!(",\"v\":{id},\"b\":{}", bytes(&b)), || alone_ecap(id, &b));
        }
    }
    // an extended capability's header, and the serial number as it is also
    // published next to the link declarations
    for i in 0..160 * scale {
        let b = match i {
            0..=31 => (1u32 << i).to_le_bytes().to_vec(),
            32..=63 => (!(1u32 << (i - 32))).to_le_bytes().to_vec(),
            _ => rng.regs(4),
        };
        rec.pure("ech", format!(",\"b\":{}", bytes(&b)), || {
            let mut m = Map::new();
            flat("", &pcics::extended_capabilities::ExtendedCapabilityHeader::from(u32::from_le_bytes([b[0], b[1], b[2], b[3]])), &mut m);
            Ok(m)
        });
        let mut b = ecap_struct(rng, 3, 16, Mode::Random);
        b.truncate(4 + i % 13);
        rec.pure("aecap", format!(",\"v\":3,\"b\":{}", bytes(&b)), || {
            use pcics::extended_capabilities::root_complex_link_declaration::DeviceSerialNumber as Sn;
            let mut m = Map::new();
            flat("", &Sn::try_from(&b[4..]).map_err(|e| e.to_string())?, &mut m);
            m.insert("$".into(), "DeviceSerialNumber".into());
            Ok(m)
        });
    }
}
