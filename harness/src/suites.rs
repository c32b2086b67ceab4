//! What is driven into the real code, per property.
use crate::conv;
use crate::iters;
use crate::gen::*;
use crate::rec::{Dev, Rec};
use crate::rng::Rng;

/// How the structures of a suite are filled.
struct Fill {
    random: usize,
    rows: u32,
    bits: bool,
    bytes: bool,
}

fn modes(f: &Fill, n: usize, step: usize) -> Vec<Mode> {
    let mut v = vec![Mode::Zero, Mode::Full];
    v.extend((0..f.random).map(|_| Mode::Random));
    for t in 0..f.rows {
        v.extend((0..=255).map(|k| Mode::Row(k, 7919 * t + f.random as u32)));
    }
    if f.bits {
        for b in 0..8 * n {
            v.push(Mode::Ones(b));
            v.push(Mode::Zeros(b));
        }
    }
    if f.bytes {
        for i in 0..n {
            for x in (0..=255u8).step_by(step) {
                v.push(Mode::Byte(i, x));
            }
        }
    }
    v
}

fn layout(rng: &mut Rng) -> u8 {
    rng.pick(&[0u8, 0, 0, 0, 0, 1, 1, 1, 1, 2])
}

fn emit_caps(rec: &mut Rec, rng: &mut Rng, p: &mut CapPacker) {
    let tail = rng.pick(&[Tail::Full, Tail::Full, Tail::AtEnd]);
    let l = layout(rng);
    let d = p.finish(rng, l, tail);
    rec.dev(&d);
    rec.walk(&d, true, false, None);
}
pub fn caps(rec: &mut Rec, rng: &mut Rng, ids: &[u8], scale: usize) {
    for &id in ids {
        let full = cap_len(id);
        let f = Fill { random: 60 * scale, rows: scale.min(2) as u32, bits: true, bytes: scale > 3 };
        let mut p = CapPacker::new();
        for m in modes(&f, full.saturating_sub(2).max(2), if scale > 8 { 1 } else { 5 }) {
            let len = match m {
                Mode::Random if rng.chance(1, 3) => {
                    let c = cap_cuts(id);
                    rng.pick(&c).max(4)
                }
                _ => full,
            };
            let c = cap_struct(rng, id, len, m);
            if !p.fits(c.len()) {
                emit_caps(rec, rng, &mut p);
            }
            p.push(c);
        }
        if !p.is_empty() {
            emit_caps(rec, rng, &mut p);
        }
    }
}
fn emit_ecaps(rec: &mut Rec, rng: &mut Rng, p: &mut EcapPacker) {
    let tail = rng.pick(&[Tail::Full, Tail::AtEnd]);
    let d = p.finish(rng, tail);
    rec.dev(&d);
    rec.walk(&d, false, true, None);
}
pub fn ecaps(rec: &mut Rec, rng: &mut Rng, ids: &[u16], scale: usize) {
    for &id in ids {
        let full = (0..32).map(|_| ecap_len(id, rng)).max().unwrap();
        let f = Fill { random: 80 * scale, rows: scale.min(2) as u32, bits: true, bytes: scale > 3 };
        let mut p = EcapPacker::new(280);
        for m in modes(&f, (full - 4).min(72).max(2), if scale > 8 { 1 } else { 5 }) {
            let n = match m {
                Mode::Random => ecap_len(id, rng),
                _ => full.min(76),
            };
            let c = ecap_struct(rng, id, n, m);
            if !p.fits(c.len()) {
                emit_ecaps(rec, rng, &mut p);
            }
            p.push(c);
        }
        if !p.is_empty() {
            emit_ecaps(rec, rng, &mut p);
        }
    }
}

/// Headers only.
fn headers(rec: &mut Rec, rng: &mut Rng, n: usize, layouts: &[u8]) {
    let one = |rec: &mut Rec, h: Vec<u8>| {
        let d = Dev { h, ..Default::default() };
        rec.dev(&d);
        rec.hdr(&d.h);
    };
    for &l in layouts {
        for b in 0..512 {
            for base in [0u8, 0xff] {
                let mut h = vec![base; 64];
                h[14] = l | (base & 0x80);
                h[b / 8] ^= 1 << (b % 8);
                one(rec, h);
            }
        }
    }
    for i in 0..n {
        let l = if layouts.len() > 1 && i % 16 == 0 { rng.byte() & 0x7f } else { rng.pick(layouts) };
        let p = rng.byte();
        let mut h = header(rng, l, p);
        if rng.chance(1, 40) {
            h.truncate(rng.below(64));
        } else if rng.chance(1, 40) {
            h.extend(rng.bytes(32));
        }
        one(rec, h);
    }
}

pub fn all_caps() -> Vec<u8> {
    (0..=22).chain([0x80, 0xff]).collect()
}
pub fn all_ecaps() -> Vec<u16> {
    (0..=0x36).chain([0x100, 0xffff]).collect()
}
/// Capabilities with contents of their own.
pub const BODIED: &[u8] = &[1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 16, 17, 18, 19, 20, 21];
pub fn ebodied() -> Vec<u16> {
    (1..=0x24).filter(|i| ![0x11, 0x14].contains(i)).collect()
}

/// A node of a hand-linked list: where it lies, its bytes.
type Node = (usize, Vec<u8>);
fn set_next(c: &mut [u8], ext: bool, next: usize) {
    if ext {
        c[2] = c[2] & 0x0f | ((next as u8) << 4);
        c[3] = (next >> 4) as u8;
    } else {
        c[1] = next as u8;
    }
}
fn place(region: &mut [u8], (at, c): &Node) {
    let n = c.len().min(region.len().saturating_sub(*at));
    if n > 0 {
        region[*at..*at + n].copy_from_slice(&c[..n]);
    }
}
fn cap_node(rng: &mut Rng, id: u8, len: usize) -> Vec<u8> {
    cap_struct(rng, id, len.max(2), Mode::Random)
}
fn ecap_node(rng: &mut Rng, id: u16, len: usize) -> Vec<u8> {
    ecap_struct(rng, id, len.max(4), Mode::Random)
}
fn dev_cap(rng: &mut Rng, layout: u8, first: usize, d: Vec<u8>) -> Dev {
    Dev { h: header(rng, layout, first as u8), d, x: vec![] }
}
fn dev_ecap(rng: &mut Rng, x: Vec<u8>) -> Dev {
    let p = rng.byte() & 0x3f;
    Dev { h: header(rng, 0, p), d: vec![], x }
}

/// Structures cut off at every length by the end of the region, in the
/// middle of a list whose other members lie before them.
fn trunc(rec: &mut Rec, rng: &mut Rng, ids: &[u8], scale: usize) {
    for &id in ids {
        let full = cap_len(id);
        let forms = cap_forms(id);
        for cut in 2..=full {
            for k in 0..scale + if scale > 3 { forms.len() } else { 0 } {
                let at = rng.pick(&[16usize, 20, 24]);
                let mut c = cap_node(rng, id, full);
                for &(b, keep, set) in forms.get(k.wrapping_sub(scale)).into_iter().flatten() {
                    c[b] = c[b] & keep | set;
                }
                set_next(&mut c, false, 0x48);
                let mut d = rng.bytes(at + cut);
                let (a, z) = (rng.pick(&[4u8, 0, 0x1b, 0x0a]), rng.pick(&[4u8, 0, 0x30, 0x06, 0x0a]));
                place(&mut d, &(0, vec![a, (0x40 + at) as u8, rng.byte(), rng.byte()]));
                place(&mut d, &(8, vec![z, 0, rng.byte(), rng.byte()]));
                place(&mut d, &(at, c));
                let l = layout(rng);
                let dev = dev_cap(rng, l, 0x40, d);
                rec.dev(&dev);
                rec.walk(&dev, true, false, None);
            }
        }
    }
}
fn etrunc(rec: &mut Rec, rng: &mut Rng, ids: &[u16], scale: usize) {
    for &id in ids {
        let mut lens: Vec<usize> = (0..24).map(|_| ecap_len(id, rng)).collect();
        lens.sort();
        lens.dedup();
        let forms = ecap_forms(id);
        for (j, &full) in lens.iter().enumerate() {
            let top = full.min(0x80);
            let low = if j == 0 { 4 } else { lens[j - 1].min(top) };
            for cut in low..=top {
                for k in 0..scale + if scale > 3 { forms.len() } else { 0 } {
                    let at = rng.pick(&[24usize, 28]);
                    let mut c = ecap_node(rng, id, full);
                    for &(b, keep, set) in forms.get(k.wrapping_sub(scale)).into_iter().flatten() {
                        if b < c.len() {
                            c[b] = c[b] & keep | set;
                        }
                    }
                    set_next(&mut c, true, 0x108);
                    let mut x = rng.bytes(at + cut);
                    let mut a = ecap_node(rng, rng_id(cut), 4);
                    set_next(&mut a, true, 0x100 + at);
                    let mut z = ecap_node(rng, 0x0e, 8);
                    set_next(&mut z, true, 0);
                    place(&mut x, &(0, a));
                    place(&mut x, &(8, z));
                    place(&mut x, &(at, c));
                    let dev = dev_ecap(rng, x);
                    rec.dev(&dev);
                    rec.walk(&dev, false, true, None);
                }
            }
        }
    }
}
fn rng_id(n: usize) -> u16 {
    [0u16, 0x11, 0x25, 0x14][n % 4]
}

/// The same structure at different places, among different neighbours and
/// at different points of the list.
fn locality(rec: &mut Rec, rng: &mut Rng, scale: usize) {
    for &id in BODIED {
        let cuts = cap_cuts(id);
        for _ in 0..2 * scale {
            let len = rng.pick(&cuts).max(4);
            let c = cap_node(rng, id, len);
            let top = (192 - len) / 4;
            let mut l = layout(rng);
            if l == 2 {
                l = 0;
            }
            for k in 0..6 {
                let at = 4 * match k {
                    0 => 0,
                    1 => top,
                    _ => rng.below(top + 1),
                };
                let mut d = rng.bytes(192);
                let mut c = c.clone();
                // a second structure wherever there is room
                let other = if at >= 4 { Some(4 * rng.below(at / 4)) } else if at + len + 8 <= 188 { Some(184) } else { None };
                let first = rng.chance(1, 2) || other.is_none();
                set_next(&mut c, false, if first { other.map_or(0, |o| 0x40 + o) } else { 0 });
                if let Some(o) = other {
                    let i = rng.pick(&[0u8, 0x33, 6, 0x0c]);
                    place(&mut d, &(o, vec![i, if first { 0 } else { (0x40 + at) as u8 }, 0, 0]));
                }
                place(&mut d, &(at, c));
                if k == 1 || rng.chance(1, 3) {
                    d.truncate((at + len).max(other.map_or(0, |o| o + 4)));
                }
                let dev = dev_cap(rng, l, 0x40 + if first { at } else { other.unwrap() }, d);
                rec.dev(&dev);
                rec.walk(&dev, true, false, None);
            }
        }
    }
    for id in ebodied() {
        for _ in 0..2 * scale {
            let mut len = ecap_len(id, rng);
            if len > 48 && rng.chance(1, 3) {
                len += 16 * rng.below(40);
            }
            let c = ecap_node(rng, id, len);
            for k in 0..5 {
                let size = rng.pick(&[len + 64, 600 + len, 3840]);
                let top = (size - len) / 4;
                let at = 4 * match k {
                    0 => 0,
                    1 => top,
                    2 => top.min(rng.pick(&[1usize, 2, 16, 63, 64])),
                    _ => rng.below(top + 1),
                };
                let mut x = rng.bytes(size);
                let mut c = c.clone();
                let mut a = ecap_node(rng, rng_id(k), 4);
                set_next(&mut a, true, 0x100 + at);
                set_next(&mut c, true, 0);
                if at >= 4 {
                    if at >= 8 && rng.chance(1, 2) {
                        // a neighbour of the same kind, visited afterwards
                        set_next(&mut c, true, 0x104);
                        let mut z = ecap_node(rng, 0x25, 4);
                        set_next(&mut z, true, 0);
                        place(&mut x, &(4, z));
                    }
                    place(&mut x, &(0, a));
                }
                place(&mut x, &(at, c));
                if k == 1 || rng.chance(1, 3) {
                    x.truncate(at + len);
                }
                let dev = dev_ecap(rng, x);
                rec.dev(&dev);
                rec.walk(&dev, false, true, None);
            }
        }
    }
}

/// Each kind at every place of the region, and with every distance to its
/// end up to `far`.
fn places(rec: &mut Rec, rng: &mut Rng, far: usize) {
    for &id in BODIED {
        let len = cap_len(id);
        for end in len..=192 {
            let mut c = cap_node(rng, id, len);
            set_next(&mut c, false, 0);
            let mut d = rng.bytes(end);
            place(&mut d, &(0, c));
            let l = layout(rng);
            let dev = dev_cap(rng, l, 0x40, d);
            rec.dev(&dev);
            rec.walk(&dev, true, false, None);
        }
        for at in (0..=192 - len.min(192)).step_by(4) {
            let mut c = cap_node(rng, id, len);
            set_next(&mut c, false, 0);
            let mut d = rng.bytes(192);
            place(&mut d, &(at, c));
            let l = layout(rng);
            let dev = dev_cap(rng, l, 0x40 + at, d);
            rec.dev(&dev);
            rec.walk(&dev, true, false, None);
        }
    }
    for id in ebodied() {
        for k in 0..far {
            let len = ecap_len(id, rng);
            let mut c = ecap_node(rng, id, len);
            set_next(&mut c, true, 0);
            let mut x = rng.bytes(len + k);
            place(&mut x, &(0, c));
            let dev = dev_ecap(rng, x);
            rec.dev(&dev);
            rec.walk(&dev, false, true, None);
        }
        // structures of one kind side by side, shifted by a double word
        // from one device to the next
        let len = (0..8).map(|_| ecap_len(id, rng)).max().unwrap().min(0x80);
        let step = (len + 3) / 4 * 4;
        for shift in 0..step / 4 {
            let mut at: Vec<usize> = (0..).map(|i| 4 + 4 * shift + i * step).take_while(|a| a + len <= 3840).collect();
            for i in (1..at.len()).rev() {
                at.swap(i, rng.below(i + 1));
            }
            let mut x = rng.bytes(3840);
            let mut first = ecap_node(rng, rng_id(shift), 4);
            set_next(&mut first, true, 0x100 + at[0]);
            place(&mut x, &(0, first));
            for (i, &a) in at.iter().enumerate() {
                let mut c = ecap_node(rng, id, len);
                set_next(&mut c, true, at.get(i + 1).map_or(0, |n| 0x100 + n));
                place(&mut x, &(a, c));
            }
            let dev = dev_ecap(rng, x);
            rec.dev(&dev);
            rec.walk(&dev, false, true, None);
        }
    }
}

/// Every kind behind every other kind in the list: what has been read before
/// has no bearing on what is read next.
fn pairs(rec: &mut Rec, rng: &mut Rng) {
    for a in all_caps() {
        for b in all_caps() {
            let (x, y) = (cap_len(a), cap_len(b));
            let (mut m, mut n) = (cap_node(rng, a, x), cap_node(rng, b, y));
            let (x, y) = (x.div_ceil(4) * 4, y.div_ceil(4) * 4);
            // the second at the very end, or before the first
            let last = rng.chance(2, 3);
            let (at, bt) = if last { (4 * rng.below(8), 192 - y) } else { (y + 4 * rng.below(8), 4 * rng.below(2)) };
            let (at, bt) = if last && at + x > bt { (0, x) } else { (at.max(if last { 0 } else { bt + y }), bt) };
            set_next(&mut m, false, 0x40 + bt);
            set_next(&mut n, false, 0);
            let end = if last { bt + cap_len(b) } else { 192.max(at + x) };
            let mut d = rng.bytes(end);
            place(&mut d, &(at, m));
            place(&mut d, &(bt, n));
            let l = layout(rng);
            let dev = dev_cap(rng, l, 0x40 + at, d);
            rec.dev(&dev);
            rec.walk(&dev, true, false, None);
        }
    }
    for a in all_ecaps() {
        for b in all_ecaps() {
            let (x, y) = (ecap_len(a, rng), ecap_len(b, rng));
            let (mut m, mut n) = (ecap_node(rng, a, x), ecap_node(rng, b, y));
            let bt = x.div_ceil(4) * 4 + 4 * rng.below(8);
            set_next(&mut m, true, 0x100 + bt);
            set_next(&mut n, true, 0);
            let tail = if rng.chance(2, 3) { 0 } else { rng.below(80) };
            let mut d = rng.bytes(bt + y + tail);
            place(&mut d, &(0, m));
            place(&mut d, &(bt, n));
            let dev = dev_ecap(rng, d);
            rec.dev(&dev);
            rec.walk(&dev, false, true, None);
        }
    }
}

/// The same capability under headers that give it different meanings.
fn context(rec: &mut Rec, rng: &mut Rng, n: usize) {
    // every place, under every kind of header
    for &id in &[9u8, 20, 7] {
        for slot in 0..48usize {
            let at = 4 * slot;
            let cuts = cap_cuts(id);
            let len = rng.pick(&cuts).max(4).min(192 - at);
            let mut c = cap_node(rng, id, len);
            set_next(&mut c, false, 0);
            let mut d = rng.bytes(192);
            place(&mut d, &(at, c));
            for l in [0u8, 1, 2, 0x80, 0x81, 0x82] {
                let mut dev = dev_cap(rng, l & 0x7f, 0x40 + at, d.clone());
                dev.h[14] = l;
                dev.h[..4].copy_from_slice(&[0xf4, 0x1a, 0x40, 0x10]);
                rec.dev(&dev);
                rec.walk(&dev, true, false, None);
            }
        }
    }
    for _ in 0..n {
        for &id in &[7u8, 9, 20, 9, 20, 16, 5] {
            let cuts = cap_cuts(id);
            let len = rng.pick(&cuts).max(4);
            let mut c = cap_node(rng, id, len);
            let last = (192 - len) / 4;
            let at = 4 * rng.pick(&[0, last, rng.clone().below(last + 1), rng.clone().below(last + 1)]);
            set_next(&mut c, false, 0);
            let mut d = rng.bytes(192);
            place(&mut d, &(at, c));
            let ids: [[u8; 4]; 9] = [
                [0xf4, 0x1a, 0x00, 0x10], [0xf4, 0x1a, 0x3f, 0x10], [0xf4, 0x1a, 0x40, 0x10], [0xf4, 0x1a, 0x7f, 0x10],
                [0xf4, 0x1a, 0x80, 0x10], [0xf4, 0x1a, 0xff, 0x0f], [0xf5, 0x1a, 0x41, 0x10], [0x1a, 0xf4, 0x10, 0x41],
                [0x86, 0x80, 0x41, 0x10],
            ];
            for l in [0u8, 1, 2, 0x80, 0x81, 0x82, 3, 0x7f, 0x83, 0xff, rng.clone().byte()] {
                let mut dev = dev_cap(rng, l & 0x7f, 0x40 + at, d.clone());
                dev.h[14] = l;
                let v = rng.pick(&ids);
                dev.h[..4].copy_from_slice(&v);
                rec.dev(&dev);
                if l & 0x7f < 3 {
                    rec.walk(&dev, true, false, None);
                } else {
                    // no pointer of its own: the caller's
                    rec.walk_from(&dev, (0x40 + at) as u8 | rng.byte() & 3);
                }
            }
            for v in ids {
                let l = rng.pick(&[0u8, 0, 1, 2]);
                let mut dev = dev_cap(rng, l, 0x40 + at, d.clone());
                dev.h[..4].copy_from_slice(&v);
                rec.dev(&dev);
                rec.walk(&dev, true, false, None);
            }
        }
    }
}

/// Long forms: tables and lists as long as the format allows.
fn elong(rec: &mut Rec, rng: &mut Rng, ids: &[u16], n: usize) {
    for &id in ids {
        for k in 0..n {
            let len = match k % 6 {
                0 => 3836,
                1 => 3840,
                2 => 2000 + rng.below(1800),
                3 => 1024 + rng.below(64),
                _ => 64 + rng.below(700),
            };
            let mut c = ecap_node(rng, id, len);
            match id {
                0x05 => c[5] = rng.pick(&[255u8, 254, 128, 127, 64, 238, 239, 240]),
                0x0d => c[5] = rng.byte(),
                0x17 => {
                    let n = rng.pick(&[2047usize, 2046, 1024, 1023, 255, 256, 257, rng.clone().below(2048)]);
                    c[5] = c[5] & 0xf9 | 2;
                    c[6] = n as u8;
                    c[7] = c[7] & 0xf8 | (n >> 8) as u8;
                }
                0x0b => {
                    let l = rng.pick(&[len, len - 1, len + 1, 0xfff, 0x800, 0x7ff, 0x100, 0xff]);
                    c[6] = c[6] & 0x0f | ((l as u8) << 4);
                    c[7] = (l >> 4) as u8;
                }
                0x23 => {
                    let l = rng.pick(&[len, len - 1, len + 1, 0xfff, 0x800, 0x7ff, 0x100, 0xff]);
                    c[6] = c[6] & 0x0f | ((l as u8) << 4);
                    c[7] = (l >> 4) as u8;
                    if rng.chance(1, 2) {
                        c[4] = 0x55;
                    }
                }
                0x02 | 0x08 | 0x09 => {
                    c[4] = c[4] & 0xf8 | rng.pick(&[7u8, 6, 5, 3]);
                    c[11] = rng.pick(&[4u8, 7, 8, 9, 40, 100]);
                    c[12] = c[12] & 0xf1 | (rng.pick(&[1u8, 2, 3]) << 1);
                    let mut o = 16;
                    let mut pat = rng.pick(&[7u8, 10, 16, 40]);
                    while o + 12 <= 16 + 12 * 8 && o + 12 <= c.len() {
                        c[o + 3] = pat;
                        c[o + 6] = c[o + 6] & 0xf1 | (rng.pick(&[1u8, 2, 3, 4, 5, 5]) << 1);
                        pat = pat.wrapping_add(rng.pick(&[0u8, 2, 4, 16]));
                        o += 12;
                    }
                }
                _ => (),
            }
            let mut x = vec![];
            if len <= 3836 && rng.chance(1, 2) {
                let mut a = ecap_node(rng, 0x25, 4);
                set_next(&mut a, true, 0x104);
                x.extend(a);
            }
            set_next(&mut c, true, 0);
            x.extend(c);
            let dev = dev_ecap(rng, x);
            rec.dev(&dev);
            rec.walk(&dev, false, true, None);
        }
    }
}

/// Every capability id, and every extended capability id and version.
fn ids(rec: &mut Rec, rng: &mut Rng, scale: usize) {
    for l in [0u8, 1, 2] {
        let mut all: Vec<u8> = (0..=255).collect();
        for i in (1..256).rev() {
            all.swap(i, rng.below(i + 1));
        }
        for part in all.chunks(12) {
            let mut d = rng.bytes(192);
            for (i, id) in part.iter().enumerate() {
                d[16 * i] = *id;
                d[16 * i + 1] = if i + 1 < part.len() { 0x40 + 16 * (i as u8 + 1) } else { 0 };
            }
            let dev = dev_cap(rng, l, 0x40, d);
            rec.dev(&dev);
            rec.walk(&dev, true, false, None);
        }
        // alone, up to the end of the region or not; last; and twice
        for id in 0..=255u8 {
            let n = rng.pick(&[2usize, 3, 4, 60, 192]);
            let mut d = rng.bytes(n);
            d[0] = id;
            d[1] = rng.pick(&[0u8, 0, 0, 1, 3, 0x40, 0x20]);
            if n > 8 && rng.chance(1, 2) {
                d[1] = 0x48;
                d[8] = rng.pick(&[id, 0, 9]);
                d[9] = 0;
            }
            let dev = dev_cap(rng, l, 0x40, d);
            rec.dev(&dev);
            rec.walk(&dev, true, false, None);
        }
    }
    // the same for extended capabilities
    for id in (0..0x40u16).chain([0xff, 0x100, 0xffff, 0x7fff]) {
        for v in [0u8, 1, 15] {
            let n = rng.pick(&[4usize, 5, 8, 64, 200]);
            let mut x = rng.bytes(n);
            x[..4].copy_from_slice(&[id as u8, (id >> 8) as u8, v, 0]);
            let next = rng.pick(&[0usize, 0, 0, 1, 3, 0x100, 0x40]);
            set_next(&mut x, true, next);
            if n > 12 && rng.chance(1, 2) {
                set_next(&mut x, true, 0x108);
                x[8] = id as u8;
                x[9] = (id >> 8) as u8;
                set_next(&mut x[8..], true, 0);
            }
            let dev = dev_ecap(rng, x);
            rec.dev(&dev);
            rec.walk(&dev, false, true, None);
        }
    }
    let mut all: Vec<u16> = if scale > 1 {
        (0..=0xffff).collect()
    } else {
        (0..0x400).chain((0..9000).map(|_| rng.next() as u16)).chain(crate::rng::dictionary().iter().map(|d| *d as u16)).chain((0..16).map(|b| 1 << b)).chain([0xffff, 0xfffe, 0x8001]).collect()
    };
    for i in (1..all.len()).rev() {
        all.swap(i, rng.below(i + 1));
    }
    for part in all.chunks(120) {
        let mut x = vec![];
        for (i, id) in part.iter().enumerate() {
            let mut c = vec![*id as u8, (*id >> 8) as u8, rng.byte() & 0xf, 0];
            if c[..3] == [0, 0, 0] {
                c[2] = 1;
            }
            set_next(&mut c, true, if i + 1 < part.len() { 0x100 + 8 * (i + 1) } else { 0 });
            c.extend(rng.bytes(4));
            x.extend(c);
        }
        let dev = dev_ecap(rng, x);
        rec.dev(&dev);
        rec.walk(&dev, false, true, None);
    }
    // every version of every known id
    for id in 0..=0x36u16 {
        let mut x = vec![];
        for v in 0..16u8 {
            let mut c = vec![id as u8, 0, v, 0];
            c.extend(rng.regs(36));
            set_next(&mut c, true, if v < 15 { 0x100 + 40 * (v as usize + 1) } else { 0 });
            x.extend(c);
        }
        let dev = dev_ecap(rng, x);
        rec.dev(&dev);
        rec.walk(&dev, false, true, None);
    }
}

fn any_cap(rng: &mut Rng) -> u8 {
    if rng.chance(1, 2) { rng.pick(&[0u8, 4, 10, 6, 0x0c, 0x0e, 0x16, 0x40, 0xff]) } else { rng.below(24) as u8 }
}
fn any_ecap(rng: &mut Rng) -> u16 {
    if rng.chance(1, 12) {
        return rng.word() as u16;
    }
    if rng.chance(1, 2) { rng.pick(&[0u16, 0x11, 0x14, 0x25, 0x2d, 0x34, 0x35, 0x400, 0xffff]) } else { rng.below(0x38) as u16 }
}
/// Lists with arbitrary links: out of order, repeated, into the header,
/// past the end of the region, back onto earlier structures.
pub fn cap_graph(rng: &mut Rng) -> Dev {
    let calm = rng.pick(&[24, 24, 120]);
    let n = rng.pick(&[1usize, 2, 3, 4, 5, 8, 12, 24, 48]);
    let mut slots: Vec<usize> = (0..48).collect();
    for i in (1..48).rev() {
        slots.swap(i, rng.below(i + 1));
    }
    slots.truncate(n);
    let mut d = if rng.chance(1, 4) { vec![0; 192] } else { rng.bytes(192) };
    let target = |rng: &mut Rng, slots: &[usize], i: usize| -> u8 {
        let noise = if rng.chance(1, 5) { rng.byte() & 3 } else { 0 };
        (match rng.below(calm) {
            0 => 0,
            1 => rng.pick(&[0x3cu8, 0x04, 0x10, 0x34]),
            2 => rng.byte() & 0xfc,
            3 | 4 => 0x40 + 4 * slots[rng.below(n)] as u8,
            _ if i + 1 < n => 0x40 + 4 * slots[i + 1] as u8,
            _ => 0,
        }) | noise
    };
    for i in 0..n {
        let o = 4 * slots[i];
        d[o] = any_cap(rng);
        d[o + 1] = target(rng, &slots, i);
    }
    let first = if rng.chance(1, 12) { target(rng, &slots, 0) } else { 0x40 + 4 * slots[0] as u8 + (rng.byte() & 3) * rng.below(2) as u8 };
    match rng.below(4) {
        0 => d.truncate(rng.below(193)),
        1 => d.truncate(4 * slots[rng.below(n)] + rng.below(5)),
        _ => (),
    }
    let l = rng.pick(&[0u8, 0, 1, 1, 2, 2, 3, 0x7f]);
    dev_cap(rng, l, first as usize, d)
}
pub fn ecap_graph(rng: &mut Rng) -> Dev {
    let calm = rng.pick(&[24, 24, 120, 600]);
    let big = rng.chance(1, 8);
    let n = if big { rng.pick(&[100usize, 300]) } else { rng.pick(&[1usize, 2, 3, 4, 6, 10, 20]) };
    let room = if big || rng.chance(1, 6) { 960 } else { 40.max(n) };
    let mut slots: Vec<usize> = (1..room).collect();
    for i in (1..slots.len()).rev() {
        slots.swap(i, rng.below(i + 1));
    }
    slots.truncate(n - 1);
    slots.insert(0, 0);
    let n = slots.len();
    let mut x = if rng.chance(1, 4) { vec![0; 4 * room] } else { rng.bytes(4 * room) };
    for i in 0..n {
        let o = 4 * slots[i];
        let mut c = ecap_struct(rng, 0, 4, Mode::Random);
        let id = any_ecap(rng);
        c[0] = id as u8;
        c[1] = (id >> 8) as u8;
        let t = match rng.below(calm) {
            0 => 0,
            1 => rng.pick(&[0x0fcusize, 0x040, 0x004, 0x0ff]),
            2 => rng.below(4096),
            3 | 4 => 0x100 + 4 * slots[rng.below(n)],
            _ if i + 1 < n => 0x100 + 4 * slots[i + 1],
            _ => 0,
        } | if rng.chance(1, 5) { rng.below(4) } else { 0 };
        set_next(&mut c, true, t);
        if rng.chance(1, 30) {
            c = rng.pick(&[vec![0, 0, 0, 0], vec![0, 0, 0, 0x11], vec![0, 0, 1, 0], vec![1, 0, 0, 0], vec![0, 0, 0xf0, 0xff]]);
        }
        x[o..o + 4].copy_from_slice(&c);
    }
    match rng.below(4) {
        0 => x.truncate(rng.below(4 * room + 1)),
        1 => x.truncate(4 * slots[rng.below(n)] + rng.below(5)),
        _ => (),
    }
    dev_ecap(rng, x)
}
/// The longest lists: every slot used once.
fn full_lists(rec: &mut Rec, rng: &mut Rng) {
    let mut d = vec![0u8; 192];
    let mut s: Vec<usize> = (0..48).collect();
    for i in (1..48).rev() {
        s.swap(i, rng.below(i + 1));
    }
    for i in 0..48 {
        d[4 * s[i]] = 0x40 + i as u8;
        d[4 * s[i] + 1] = if i < 47 { 0x40 + 4 * s[i + 1] as u8 } else { 0 };
    }
    let dev = dev_cap(rng, 0, 0x40 + 4 * s[0], d);
    rec.dev(&dev);
    rec.walk(&dev, true, false, None);
    for n in [960usize, 959, 256] {
        let mut s: Vec<usize> = (0..n).collect();
        for i in (2..n).rev() {
            s.swap(i, 1 + rng.below(i));
        }
        let mut x = vec![0u8; 4 * n];
        for i in 0..n {
            let mut c = vec![i as u8, 0x80 | (i >> 8) as u8, 1, 0];
            // closing the circle, or not
            let back = if n == 959 { 0x100 } else { 0 };
            set_next(&mut c, true, if i + 1 < n { 0x100 + 4 * s[i + 1] } else { back });
            x[4 * s[i]..4 * s[i] + 4].copy_from_slice(&c);
        }
        let dev = dev_ecap(rng, x);
        rec.dev(&dev);
        rec.walk(&dev, false, true, None);
    }
}

/// Lists of every length, in any order, whose last link leads back into the
/// list or nowhere.
fn loops(rec: &mut Rec, rng: &mut Rng, ext: bool) {
    let (base, most) = if ext { (0x100, 960) } else { (0x40, 48) };
    let lengths: Vec<usize> = if ext {
        (1..=40).chain((1..=22).map(|k| 41 * k + rng.below(41)).filter(|n| *n <= 958)).chain([959, 960]).collect()
    } else {
        (1..=48).collect()
    };
    for n in lengths {
        for back in [None, Some(0), Some(rng.below(n)), Some(n - 1), Some(n / 2)] {
            if ext && n > 40 && rng.chance(2, 5) {
                continue;
            }
            let mut s: Vec<usize> = (0..most).collect();
            let fixed = ext as usize; // the extended list starts at 100h
            for i in (fixed + 1..most).rev() {
                s.swap(i, fixed + rng.below(i + 1 - fixed));
            }
            s.truncate(n);
            let mut b = if rng.chance(1, 2) { vec![0u8; 4 * most] } else { rng.bytes(4 * most) };
            for i in 0..n {
                let to = if i + 1 < n { base + 4 * s[i + 1] } else { back.map_or(0, |k| base + 4 * s[k]) };
                let mut c = if ext { vec![rng.pick(&[0x11u8, 0x25, 0x40]), 0, 1, 0] } else { vec![rng.pick(&[0u8, 6, 0x0c, 0x40]), 0] };
                set_next(&mut c, ext, to);
                b[4 * s[i]..4 * s[i] + c.len()].copy_from_slice(&c);
            }
            let dev = if ext { dev_ecap(rng, b) } else { dev_cap(rng, rng.clone().pick(&[0u8, 1, 2]), base + 4 * s[0], b) };
            rec.dev(&dev);
            rec.walk(&dev, !ext, ext, None);
        }
    }
}

/// Every place once as the one a link leads back to: from itself, or from
/// the structure behind it.
fn every_place(rec: &mut Rec, rng: &mut Rng, ext: bool) {
    let (base, n) = if ext { (0x100, 960) } else { (0x40, 48) };
    for s in 0..n {
        let others: Vec<usize> = (0..if ext { 1 + rng.below(2) } else { 3 * rng.below(2) }).map(|k| (s + k * 7) % n).collect();
        let mut list = if ext { vec![0] } else { vec![] };
        list.push(s);
        list.extend(others);
        list.dedup();
        let mut seen = vec![];
        list.retain(|k| !seen.contains(k) && { seen.push(*k); true });
        let end = list.iter().max().unwrap() * 4 + 4;
        let mut b = vec![0u8; end + 4 * rng.below(2)];
        for (i, k) in list.iter().enumerate() {
            let to = base + 4 * list.get(i + 1).unwrap_or(&s);
            let mut c = if ext { vec![rng.pick(&[0u8, 0x25, 0x11, 0x40]), 0, 1, 0] } else { vec![rng.pick(&[0u8, 6, 0x0c, 0x40]), 0] };
            set_next(&mut c, ext, to);
            b[4 * k..4 * k + c.len()].copy_from_slice(&c);
        }
        let dev = if ext { dev_ecap(rng, b) } else { dev_cap(rng, rng.clone().pick(&[0u8, 1, 2]), base + 4 * s, b) };
        rec.dev(&dev);
        rec.walk(&dev, !ext, ext, None);
    }
}

/// Arbitrary bytes of arbitrary length.
const CORPUS: [&[u8]; 3] = [
    include_bytes!("../corpus/8086_2030"),
    include_bytes!("../corpus/8086_9dc8"),
    include_bytes!("../corpus/random4k"),
];
fn split(b: &[u8]) -> Dev {
    let cut = |a: usize, z: usize| b[a.min(b.len())..z.min(b.len())].to_vec();
    Dev { h: cut(0, 64), d: cut(64, 256), x: cut(256, 4096) }
}
/// More bytes than the regions have: a caller may pass the rest of a buffer.
fn oversize(rec: &mut Rec, rng: &mut Rng, n: usize) {
    for i in 0..n {
        let mut dev = match i % 4 {
            0 => cap_graph(rng),
            1 => ecap_graph(rng),
            2 => {
                let id = rng.pick(BODIED);
                let c = cap_node(rng, id, cap_len(id));
                let mut d = rng.bytes(192);
                let at = 4 * rng.below(48);
                d.truncate(at);
                d.extend(c);
                dev_cap(rng, rng.clone().pick(&[0u8, 1, 2]), 0x40 + at, d)
            }
            _ => {
                let id = rng.pick(&ebodied());
                let c = ecap_node(rng, id, 64 + rng.clone().below(5000));
                let mut x = vec![0x25, 0, 1, 0];
                let at = 4 * rng.pick(&[1, 1000 - 64 + rng.clone().below(24), 1 + rng.clone().below(950)]);
                set_next(&mut x, true, 0x100 + at);
                x.resize(at, 0);
                x.extend(c);
                dev_ecap(rng, x)
            }
        };
        let more = rng.pick(&[64usize, 3840, 4096, 6000]);
        let tail = rng.bytes(more);
        if dev.x.is_empty() {
            dev.d.extend(tail);
        } else {
            dev.x.extend(tail);
        }
        rec.dev(&dev);
        rec.walk(&dev, dev.x.is_empty(), !dev.x.is_empty(), None);
    }
}
fn soup(rec: &mut Rec, rng: &mut Rng, n: usize) {
    for i in 0..n {
        let mut d = match i % 10 {
            0 | 1 => {
                let mut b = rng.pick(&CORPUS).to_vec();
                for _ in 0..rng.below(30) {
                    let k = rng.below(b.len());
                    b[k] = rng.pick(&[rng.clone().byte(), 0, 0xff, b[k] ^ 1, b[k] ^ 0x80]);
                }
                if rng.chance(1, 2) {
                    b.truncate(64 + rng.below(4033));
                }
                split(&b)
            }
            2 => cap_graph(rng),
            3 => ecap_graph(rng),
            4 | 5 => {
                // well-formed structures, damaged
                let mut p = CapPacker::new();
                loop {
                    let id = rng.pick(BODIED);
                    let c = cap_node(rng, id, cap_len(id));
                    if !p.fits(c.len()) {
                        break;
                    }
                    p.push(c);
                }
                let l = layout(rng);
                let k = rng.below(64);
                p.finish(rng, l, Tail::Cut(k))
            }
            6 | 7 => {
                let mut p = EcapPacker::new(400);
                let all = ebodied();
                loop {
                    let id = rng.pick(&all);
                    let n = ecap_len(id, rng);
                    let c = ecap_node(rng, id, n);
                    if !p.fits(c.len()) {
                        break;
                    }
                    p.push(c);
                }
                let k = rng.below(96);
                p.finish(rng, Tail::Cut(k))
            }
            _ => {
                let (l, p) = (rng.pick(&[0u8, 1, 2, 3, 0x7f]), rng.byte());
                let mut d = Dev { h: header(rng, l, p), d: vec![], x: vec![] };
                let n = rng.below(260);
                d.d = rng.regs(n);
                let n = rng.pick(&[rng.clone().below(64), rng.clone().below(4200)]);
                d.x = rng.regs(n);
                if d.x.len() > 4 && rng.chance(2, 3) {
                    d.x[0] = rng.below(0x26) as u8;
                    d.x[1] = 0;
                }
                d
            }
        };
        if rng.chance(1, 20) {
            let k = rng.below(80);
            d.h.resize(k, 0xff);
        }
        rec.dev(&d);
        rec.hdr(&d.h);
        rec.walk(&d, true, true, None);
    }
}

/// Walks whose handle is duplicated midway, the two advanced in any order.
fn clones(rec: &mut Rec, rng: &mut Rng, n: usize) {
    for i in 0..n {
        let d = if i % 2 == 0 { cap_graph(rng) } else { ecap_graph(rng) };
        if d.x.len() > 400 && i % 8 != 1 {
            continue;
        }
        let at = rng.below(7);
        let order = rng.next();
        rec.dev(&d);
        rec.walk(&d, i % 2 == 0, i % 2 == 1, Some((at, order)));
    }
    for _ in 0..n / 20 {
        let mut d = split(CORPUS[0]);
        if rng.chance(1, 2) {
            let k = rng.below(d.x.len());
            d.x[k] ^= 1 << rng.below(8);
        }
        let (at, order) = (rng.below(9), rng.next());
        rec.dev(&d);
        rec.walk(&d, true, true, Some((at, order)));
    }
}

/// Walks over different devices at the same time.
fn together(rec: &mut Rec, rng: &mut Rng, n: usize, compare: bool) {
    for i in 0..n {
        let devs: Vec<Dev> = (0..2 + rng.below(3))
            .map(|_| match rng.below(6) {
                0 | 1 => cap_graph(rng),
                2 | 3 => loop {
                    let d = ecap_graph(rng);
                    if d.x.len() < 400 {
                        break d;
                    }
                },
                4 => {
                    // both lists
                    let mut d = cap_graph(rng);
                    d.x = ecap_graph(rng).x;
                    d.x.truncate(400);
                    d
                }
                _ => {
                    let mut p = EcapPacker::new(400);
                    let all = ebodied();
                    loop {
                        let id = rng.pick(&all);
                        let n = ecap_len(id, rng);
                        let c = ecap_node(rng, id, n);
                        if !p.fits(c.len()) {
                            break;
                        }
                        p.push(c);
                    }
                    p.finish(rng, Tail::Full)
                }
            })
            .collect();
        // sometimes the same device twice
        let devs = if rng.chance(1, 3) { vec![devs[0].clone(), devs[0].clone(), devs[1].clone()] } else { devs };
        rec.together(&devs, rng.next(), i % 4 == 3, compare);
    }
}

/// Base address registers: kinds of registers in every position.
fn bars(rec: &mut Rec, rng: &mut Rng, n: usize) {
    let reg = |rng: &mut Rng| -> u32 {
        let hi = rng.pick(&[rng.clone().next() as u32, 0, 0xffff_fff0, 0x10, 0x8000_0000, 0x000f_fff0]) & !15;
        match rng.below(9) {
            0 => 0,
            1 => hi | 1 | (rng.byte() as u32 & 0xc),
            2 => hi | 3,
            3 => hi | (rng.byte() as u32 & 8),
            4 => hi | 2 | (rng.byte() as u32 & 8),
            5 | 6 => hi | 4 | (rng.byte() as u32 & 8),
            7 => hi | 6 | (rng.byte() as u32 & 8),
            _ => rng.next() as u32,
        }
    };
    let put = |rec: &mut Rec, rng: &mut Rng, l: u8, r: &[u32]| {
        let mut h = header(rng, l, 0);
        for (i, v) in r.iter().enumerate() {
            h[16 + 4 * i..20 + 4 * i].copy_from_slice(&v.to_le_bytes());
        }
        let d = Dev { h, ..Default::default() };
        rec.dev(&d);
        rec.hdr(&d.h);
    };
    // every pair of low nibbles, with and without address bits
    for a in 0..16u32 {
        for b in 0..16u32 {
            for (x, y) in [(0u32, 0u32), (0xffff_fff0, 0), (0, 0xffff_fff0), (0x1234_5670, 0x89ab_cde0)] {
                put(rec, rng, 1, &[a | x, b | y]);
                let k = rng.below(5);
                let mut r: Vec<u32> = (0..6).map(|_| reg(rng)).collect();
                r[k] = a | x;
                r[k + 1] = b | y;
                put(rec, rng, 0, &r);
            }
        }
        for x in [0, 0xffff_fff0, 0x8000_0000] {
            put(rec, rng, 2, &[a | x]);
        }
    }
    for _ in 0..n {
        let r: Vec<u32> = (0..6).map(|_| reg(rng)).collect();
        let l = rng.pick(&[0u8, 0, 0, 1, 2]);
        put(rec, rng, l, &r[..[6, 2, 1][l as usize]]);
    }
}

/// Bridge windows: every pair of capability nibbles.
fn windows(rec: &mut Rec, rng: &mut Rng, n: usize) {
    for k in 0..n {
        for a in 0..16u8 {
            for b in 0..16u8 {
                let mut h = header(rng, 1, 0);
                let hi = |rng: &mut Rng| match k % 4 {
                    0 => 0,
                    1 => rng.byte() & 0xf0,
                    _ => rng.pick(&[0, 0xf0, 0x10, rng.clone().byte() & 0xf0]),
                };
                h[28] = a | hi(rng);
                h[29] = b | hi(rng);
                h[36] = a | hi(rng);
                h[38] = b | hi(rng);
                if k % 4 == 0 {
                    h[37] = 0;
                    h[39] = 0;
                }
                if rng.chance(1, 4) {
                    for i in (40..48).chain(48..52) {
                        h[i] = rng.pick(&[0, 0, 0xff]);
                    }
                }
                if rng.chance(1, 2) {
                    h.swap(28, 36);
                }
                let d = Dev { h, ..Default::default() };
                rec.dev(&d);
                rec.hdr(&d.h);
                let mut h = header(rng, 2, 0);
                h[44] = h[44] & 0xfc | a & 3;
                h[48] = h[48] & 0xfc | b & 3;
                h[52] = h[52] & 0xfc | a >> 2;
                h[56] = h[56] & 0xfc | b >> 2;
                let m = rng.below(129);
                let d = Dev { h, d: rng.regs(m), x: vec![] };
                rec.dev(&d);
                rec.hdr(&d.h);
                rec.opt(&d);
                // the optional registers, readable and of telling values
                let m = 64 + rng.below(65);
                let mut d = Dev { d: rng.regs(m), ..d };
                for o in [0, 2, 4] {
                    if rng.chance(1, 2) {
                        let v = rng.word().to_le_bytes();
                        let w = if o == 4 { 4 } else { 2 };
                        d.d[o..o + w].copy_from_slice(&v[..w]);
                    }
                }
                rec.dev(&d);
                rec.opt(&d);
            }
        }
    }
}

fn nums<T: std::str::FromStr>(s: &str) -> Vec<T> {
    s.split(',').filter_map(|x| x.parse().ok()).collect()
}

pub fn run(suite: &str, rec: &mut Rec, seed: u64, scale: usize) {
    let mut rng = Rng::new(seed ^ suite.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
    let rng = &mut rng;
    let (name, arg) = suite.split_once(':').unwrap_or((suite, ""));
    match name {
        "caps" => caps(rec, rng, &nums::<u8>(arg), scale),
        "ecaps" => ecaps(rec, rng, &nums::<u16>(arg), scale),
        "allcaps" => caps(rec, rng, &all_caps(), scale),
        "allecaps" => ecaps(rec, rng, &all_ecaps(), scale),
        "trunc" => trunc(rec, rng, &if arg.is_empty() { BODIED.to_vec() } else { nums::<u8>(arg) }, scale),
        "etrunc" => etrunc(rec, rng, &if arg.is_empty() { ebodied() } else { nums::<u16>(arg) }, scale),
        "elong" => elong(rec, rng, &nums::<u16>(arg), 8 * scale),
        "context" => context(rec, rng, 8 * scale),
        "locality" => locality(rec, rng, 4 * scale),
        "places" => places(rec, rng, 280 * scale),
        "pairs" => (0..scale).for_each(|_| pairs(rec, rng)),
        "ids" => ids(rec, rng, scale),
        "caplinks" => {
            full_lists(rec, rng);
            every_place(rec, rng, false);
            loops(rec, rng, false);
            for _ in 0..1500 * scale {
                let d = cap_graph(rng);
                rec.dev(&d);
                rec.walk(&d, true, false, None);
            }
        }
        "ecaplinks" => {
            full_lists(rec, rng);
            every_place(rec, rng, true);
            loops(rec, rng, true);
            for _ in 0..1000 * scale {
                let d = ecap_graph(rng);
                rec.dev(&d);
                rec.walk(&d, false, true, None);
            }
        }
        "soup" => soup(rec, rng, 3000 * scale),
        "oversize" => oversize(rec, rng, 150 * scale),
        "clones" => clones(rec, rng, 2000 * scale),
        "together" => together(rec, rng, 250 * scale, false),
        "apart" => together(rec, rng, 250 * scale, true),
        "bars" => bars(rec, rng, 1500 * scale),
        "windows" => windows(rec, rng, 4 * scale),
        "header" => headers(rec, rng, 1500 * scale, &[0, 1, 2, 3]),
        "iters" => iters::iters(rec, rng, &arg.split(',').filter(|s| !s.is_empty()).collect::<Vec<_>>(), scale),
        "order" => conv::order(rec),
        "scripts" => iters::scripts(rec, rng, scale),
        "equality" => iters::equality(rec, rng, scale),
        "alone" => iters::alone(rec, rng, scale),
        "sizes" => conv::sizes(rec),
        "class" => conv::class(rec),
        "conv" => conv::conv(rec, rng, scale),
        _ => panic!("unknown suite {suite}"),
    }
}
/// Behaviours of the models: `KIND H D X OPS` per line, bytes in hex ("-":
/// none), OPS the handles called in turn (0: duplicate handle 1).
pub fn replay(path: &str, rec: &mut Rec) {
    let hex = |s: &str| -> Vec<u8> {
        if s == "-" {
            return vec![];
        }
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    };
    for l in std::fs::read_to_string(path).unwrap().lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let d = Dev { h: hex(f[1]), d: hex(f[2]), x: hex(f[3]) };
        if let Some(n) = f[0].strip_prefix("it:") {
            crate::iters::play(rec, n, &d.d, d.h[0] as usize, &nums::<usize>(f[4]));
            continue;
        }
        rec.dev(&d);
        match f[0] {
            "hdr" => {
                rec.hdr(&d.h);
            }
            k => rec.script(&d, k, &nums::<usize>(f[4])),
        }
    }
}
