//! Configuration spaces to observe the code on.
use crate::rec::Dev;
use crate::rng::Rng;

/// Longest form of each capability (bytes, header included).
pub fn cap_len(id: u8) -> usize {
    match id {
        0x01 => 8, 0x02 => 36, 0x03 => 8, 0x04 => 4, 0x05 => 24, 0x07 => 32, 0x08 => 28, 0x09 => 20,
        0x0a => 4, 0x0d => 8, 0x10 => 60, 0x11 => 12, 0x12 => 8, 0x13 => 6, 0x14 => 68, 0x15 => 36,
        _ => 4,
    }
}
/// Shorter forms at whose ends a structure may legitimately stop.
pub fn cap_cuts(id: u8) -> Vec<usize> {
    match id {
        0x02 => vec![12, 16, 20, 22, 24, 28, 32, 34, 36],
        0x05 => vec![4, 10, 12, 14, 16, 20, 24],
        0x07 => vec![8, 16, 24, 32],
        0x08 => vec![3, 4, 12, 16, 20, 24, 28],
        0x09 => vec![3, 4, 16, 20],
        0x10 => vec![20, 28, 36, 44, 52, 60],
        0x14 => vec![4, 8, 16, 20, 24, 28, 32, 48],
        _ => vec![cap_len(id)],
    }
}
/// Values of the fields that decide which form a capability has:
/// (byte, bits kept, bits set).
pub fn cap_forms(id: u8) -> Vec<Vec<(usize, u8, u8)>> {
    match id {
        0x05 => (0..4).map(|k| vec![(2, 0x7f, (k & 1) << 7), (3, 0xfe, k >> 1)]).collect(),
        0x07 => (0..4).map(|k| vec![(3, 0xcf, k << 4)]).collect(),
        0x08 => (0..32).map(|k| vec![(3, 0x07, k << 3)]).collect(),
        0x09 => (0..7).map(|k| vec![(3, 0, k)]).collect(),
        0x10 => (0..32).map(|k| vec![(2, 0, (k & 15) << 4 | (1 + (k >> 4)))]).collect(),
        0x14 => (0..4).map(|k| vec![(2, 0xc0, k)]).collect(),
        _ => vec![vec![]],
    }
}
/// The same for extended capabilities.
pub fn ecap_forms(id: u16) -> Vec<Vec<(usize, u8, u8)>> {
    match id {
        0x02 | 0x08 | 0x09 => (0..5).map(|k| vec![(4, 0xf8, k), (11, 0, 1 + k), (12, 0xf1, 2)]).collect(),
        0x05 => (0..5).map(|k| vec![(5, 0, k)]).collect(),
        0x0d => [0u8, 1, 31, 32, 33, 64, 96, 127, 128, 129, 255].iter().map(|k| vec![(4, 0xff, 0x20), (5, 0, *k)]).collect(),
        0x15 | 0x24 => (0..8).map(|k| vec![(8, 0x1f, k << 5)]).collect(),
        0x16 => [0u8, 1, 2, 3, 4, 7, 15, 16, 30, 31].iter().map(|k| vec![(4, 0xe0, *k)]).collect(),
        0x17 => [0u8, 1, 2, 3, 7, 24, 25].iter().map(|k| vec![(5, 0xf9, 2), (6, 0, *k), (7, 0xf8, 0)]).collect(),
        0x1a => [0u8, 1, 2, 3, 4, 5, 62, 63].iter().map(|k| vec![(4, 0xc0, *k)]).collect(),
        0x1d => (0..16).map(|k| vec![(5, 0xf0, k)]).chain((4..10).map(|k| vec![(4, 0xff, 0x20), (5, 0xf0, k)])).collect(),
        _ => vec![vec![]],
    }
}
pub fn ecap_len(id: u16, rng: &mut Rng) -> usize {
    match id {
        0x01 => 0x48, 0x02 | 0x08 | 0x09 => rng.pick(&[0x10, 0x1c, 0x28, 0x40, 0x70, 0xb0, 0x130, 0x180]),
        0x03 => 12, 0x04 => 16, 0x05 => 16 + 16 * rng.below(5), 0x06 => 12, 0x07 => 12, 0x0a => 20,
        0x0b => rng.pick(&[8, 12, 24, 48]), 0x0c => 8, 0x0d => rng.pick(&[8, 12, 24, 40]), 0x0e => 8, 0x0f => 8,
        0x10 => 64, 0x12 => 48, 0x13 => 16, 0x15 | 0x24 => rng.pick(&[12, 20, 28, 52]), 0x16 => rng.pick(&[16, 20, 32, 48]),
        0x17 => rng.pick(&[12, 16, 28, 64]), 0x18 => 8, 0x19 => rng.pick(&[12, 16, 20, 44, 76]), 0x1a => rng.pick(&[16, 20, 36]),
        0x1b => 8, 0x1c => 8, 0x1d => rng.pick(&[12, 48, 52, 68]), 0x1e => 16, 0x1f => 12, 0x20 => 28, 0x21 => 16, 0x22 => 12,
        0x23 => rng.pick(&[12, 20, 56, 56, 60, 60]), _ => 4,
    }
}

/// Steers the discriminating fields of a structure's contents so that its
/// variants all occur; applied with probability 3/4.
pub fn steer_cap(id: u8, c: &mut [u8], rng: &mut Rng) {
    if rng.chance(1, 4) {
        return;
    }
    match id {
        0x08 => {
            let t = rng.pick(&[0u8, 1, 3, 4, 5, 7, 8, 16, 17, 17, 18, 19, 20, 21, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31]);
            c[3] = c[3] & 7 | t << 3;
        }
        0x09 => {
            c[2] = rng.pick(&[c.len() as u8, c.len() as u8, 16, 20, 4, 3, 2, 17, 15, 19, 24]);
            c[3] = rng.pick(&[c[3], 0, 1, 2, 2, 3, 4, 5]);
        }
        0x10 => {
            c[2] = c[2] & 0xf0 | rng.pick(&[1u8, 2, 2, 2, 0]);
        }
        0x14 => {
            c[2] = c[2] & 0xc0 | rng.pick(&[0u8, 1, 2, 3, 5]);
            // entry size fields consistent with the entries' contents
            let mut o = rng.pick(&[4usize, 4, 8]);
            while o + 12 <= c.len() {
                let n = 2 + (c[o + 4] >> 1 & 1) + (c[o + 8] >> 1 & 1);
                if rng.chance(5, 6) {
                    c[o] = c[o] & 0xf8 | n;
                }
                o += 4 * (c[o] as usize % 8 + 1);
            }
        }
        _ => (),
    }
}
pub fn steer_ecap(id: u16, c: &mut [u8], rng: &mut Rng) {
    if rng.chance(1, 5) {
        return;
    }
    let n = c.len();
    match id {
        0x02 | 0x08 | 0x09 if n >= 16 => {
            c[4] = c[4] & 0xf8 | rng.pick(&[0u8, 0, 1, 2, 7]);
            let room = n / 16 + 2;
            c[11] = if rng.chance(1, 2) { rng.pick(&[0u8, 0, 1, 2, 3, 4]) } else { rng.below(room) as u8 };
            c[12] = c[12] & 0xf1 | (rng.pick(&[0u8, 1, 1, 2, 3, 5]) << 1);
            let mut o = 16;
            while o + 12 <= n {
                c[o + 3] = if rng.chance(1, 2) { rng.pick(&[0u8, 1, 2, 3, 4, 7]) } else { rng.below(room) as u8 };
                c[o + 6] = c[o + 6] & 0xf1 | (rng.pick(&[0u8, 1, 1, 2, 3, 4, 5, 6]) << 1);
                o += 12;
            }
        }
        0x05 if n >= 8 => c[5] = rng.pick(&[1u8, 1, 2, 3, 4, 0]),
        0x0b if n >= 8 => {
            let l = rng.pick(&[n, n, 8, 12, 20, 4, n + 4]);
            c[6] = c[6] & 0x0f | ((l as u8) << 4);
            c[7] = (l >> 4) as u8;
        }
        0x0d if n >= 8 => {
            c[5] = rng.pick(&[c[5], 1, 31, 32, 33, 64, 100, 128, 200, 255, 0, 8]);
        }
        0x15 | 0x24 if n >= 12 => {
            c[8] = c[8] & 0x1f | (rng.pick(&[1u8, 1, 2, 3, 6, 0, 7]) << 5);
        }
        0x16 if n >= 8 => c[4] = c[4] & 0xe0 | rng.pick(&[0u8, 1, 3, 15, 31]),
        0x17 if n >= 8 => {
            if rng.chance(2, 3) {
                c[5] = c[5] & 0xf9 | 2;
                c[6] = rng.pick(&[0u8, 1, 3, 7, 25, 63, 64, 255]);
                c[7] = c[7] & 0xf8 | rng.pick(&[0u8, 0, 0, 1]);
            }
        }
        0x1a if n >= 8 => c[4] = c[4] & 0xc0 | rng.pick(&[0u8, 1, 2, 5, 10]),
        0x1d if n >= 8 => {
            c[5] = c[5] & 0xf0 | rng.pick(&[0u8, 4, 5, 6, 7, 8, 9, 15]);
        }
        0x23 if n >= 10 => {
            let l = rng.pick(&[n, n, n, 10, 12, 56, 9, n + 1]);
            c[6] = c[6] & 0x0f | ((l as u8) << 4);
            c[7] = (l >> 4) as u8;
            if rng.chance(3, 4) {
                c[4] = 0x98;
                c[5] = 0x1e;
                c[8] = rng.pick(&[0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 255]);
                c[9] = rng.pick(&[0u8, 0, 0, 0, 0, 0, 0, 0, 0, 1]);
            }
        }
        _ => (),
    }
}

/// A header of the given layout.
pub fn header(rng: &mut Rng, layout: u8, ptr: u8) -> Vec<u8> {
    let mut h = rng.regs(64);
    h[14] = layout | (rng.byte() & 0x80);
    match layout {
        2 => h[20] = ptr,
        _ => h[52] = ptr,
    }
    if rng.chance(1, 3) {
        h[0] = 0xf4;
        h[1] = 0x1a;
        h[3] = rng.pick(&[0x10u8, 0x10, 0x0f, 0x11]);
        h[2] = rng.pick(&[0u8, 1, 0x3f, 0x40, 0x7f, 0x80, 0xff, 0x10]);
    } else if rng.chance(1, 4) {
        let o = rng.pick(&[0usize, 2, 8, 10, 44, 46]);
        let v = rng.word() as u16;
        h[o..o + 2].copy_from_slice(&v.to_le_bytes());
    }
    h
}

/// Packs capability structures into a device dependent region.
pub struct CapPacker {
    pub items: Vec<Vec<u8>>,
    used: usize,
    limit: usize,
}
impl CapPacker {
    pub fn new() -> Self {
        CapPacker { items: vec![], used: 0, limit: 192 }
    }
    pub fn fits(&self, n: usize) -> bool {
        self.used + (n + 3) / 4 * 4 <= self.limit
    }
    pub fn push(&mut self, c: Vec<u8>) {
        self.used += (c.len() + 3) / 4 * 4;
        self.items.push(c);
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    /// Random placement and link order; the region may end right after the
    /// last structure or `cut` bytes into it.
    pub fn finish(&mut self, rng: &mut Rng, layout: u8, tail: Tail) -> Dev {
        let mut items = std::mem::take(&mut self.items);
        let n = items.len();
        let mut slack = (self.limit - self.used) / 4;
        self.used = 0;
        let mut d = rng.bytes(192);
        let mut at = vec![];
        let mut o = 0;
        for (i, c) in items.iter().enumerate() {
            let last = i + 1 == n;
            let s = if slack > 0 && !(last && tail == Tail::AtEnd) { rng.below(slack + 1).min(8) } else { 0 };
            slack -= s;
            o += 4 * s;
            at.push(o);
            d[o..o + c.len()].copy_from_slice(c);
            o += (c.len() + 3) / 4 * 4;
        }
        // link in random order
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            order.swap(i, rng.below(i + 1));
        }
        let low = |rng: &mut Rng| if rng.chance(1, 4) { rng.byte() & 3 } else { 0 };
        for w in 0..n {
            let next = if w + 1 < n { (0x40 + at[order[w + 1]]) as u8 } else { 0 };
            d[at[order[w]] + 1] = next | if next == 0 { 0 } else { low(rng) };
        }
        let ptr = if n > 0 { (0x40 + at[order[0]]) as u8 | low(rng) } else { 0 };
        let end = if n > 0 { at[n - 1] + items[n - 1].len() } else { 192 };
        match tail {
            Tail::Full => (),
            Tail::AtEnd => d.truncate(end),
            Tail::Cut(k) => d.truncate(end.saturating_sub(k)),
        }
        items.clear();
        Dev { h: header(rng, layout, ptr), d, x: vec![] }
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Tail {
    Full,
    AtEnd,
    Cut(usize),
}

/// Packs extended capability structures (the first one at 100h).
pub struct EcapPacker {
    pub items: Vec<Vec<u8>>,
    used: usize,
    pub limit: usize,
}
impl EcapPacker {
    pub fn new(limit: usize) -> Self {
        EcapPacker { items: vec![], used: 0, limit }
    }
    pub fn fits(&self, n: usize) -> bool {
        self.items.is_empty() || self.used + (n + 3) / 4 * 4 <= self.limit
    }
    pub fn push(&mut self, c: Vec<u8>) {
        self.used += (c.len() + 3) / 4 * 4;
        self.items.push(c);
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn finish(&mut self, rng: &mut Rng, tail: Tail) -> Dev {
        let mut items = std::mem::take(&mut self.items);
        self.used = 0;
        if items.is_empty() {
            return Dev { h: header(rng, 0, 0), d: vec![], x: vec![] };
        }
        // sometimes the list starts with a small structure so that nothing
        // of interest lies at the very beginning of the region
        if rng.chance(2, 3) {
            let mut nul = vec![0u8; 4];
            nul[2] = 1;
            nul[0] = rng.pick(&[0u8, 0x11, 0x25]);
            items.insert(0, nul);
        }
        let n = items.len();
        let mut x: Vec<u8> = vec![];
        let mut at = vec![];
        for (i, c) in items.iter().enumerate() {
            if i > 0 {
                let gap = 4 * rng.below(4);
                let g = rng.bytes(gap);
                x.extend(g);
            }
            at.push(x.len());
            x.extend_from_slice(c);
            while x.len() % 4 != 0 && i + 1 < n {
                x.push(rng.byte());
            }
        }
        let mut order: Vec<usize> = (0..n).collect();
        for i in (2..n).rev() {
            order.swap(i, 1 + rng.below(i));
        }
        for w in 0..n {
            let next = if w + 1 < n { 0x100 + at[order[w + 1]] } else { 0 };
            let low = if next != 0 && rng.chance(1, 4) { rng.below(4) } else { 0 };
            let v = next | low;
            let o = at[order[w]];
            x[o + 2] = x[o + 2] & 0x0f | ((v as u8) << 4);
            x[o + 3] = (v >> 4) as u8;
        }
        match tail {
            Tail::Full => {
                let k = 4 * rng.below(6);
                let t = rng.bytes(k);
                x.extend(t)
            }
            Tail::AtEnd => (),
            Tail::Cut(k) => {
                let l = x.len().saturating_sub(k);
                x.truncate(l)
            }
        }
        Dev { h: header(rng, 0, 0), d: vec![], x }
    }
}

/// Contents of one structure.
#[derive(Clone, Copy)]
pub enum Mode {
    Random,
    Ones(usize),  // only this bit set
    Zeros(usize), // only this bit clear
    Byte(usize, u8),
    /// Row of a table in every column of which each byte occurs once.
    Row(u8, u32),
    Zero,
    Full,
}
pub fn contents(rng: &mut Rng, n: usize, from: usize, m: Mode) -> Vec<u8> {
    let mut c = match m {
        Mode::Random => rng.regs(n),
        Mode::Ones(_) | Mode::Zero => vec![0; n],
        Mode::Zeros(_) | Mode::Full => vec![0xff; n],
        Mode::Byte(..) => rng.bytes(n),
        Mode::Row(k, seed) => (0..n as u32)
            .map(|j| {
                let h = (seed ^ j.wrapping_mul(0x9e37_79b1)).wrapping_mul(0x85eb_ca6b);
                let h = (h ^ h >> 15).wrapping_mul(0xc2b2_ae35);
                k.wrapping_mul((h >> 8) as u8 | 1).wrapping_add((h >> 20) as u8)
            })
            .collect(),
    };
    match m {
        Mode::Ones(b) if from + b / 8 < n => c[from + b / 8] |= 1 << (b % 8),
        Mode::Zeros(b) if from + b / 8 < n => c[from + b / 8] &= !(1 << (b % 8)),
        Mode::Byte(i, v) if from + i < n => c[from + i] = v,
        _ => (),
    }
    c
}
pub fn cap_struct(rng: &mut Rng, id: u8, len: usize, m: Mode) -> Vec<u8> {
    let mut c = contents(rng, len, 2, m);
    if len >= 4 {
        steer_cap(id, &mut c, rng);
    }
    c[0] = id;
    c
}
pub fn ecap_struct(rng: &mut Rng, id: u16, len: usize, m: Mode) -> Vec<u8> {
    let mut c = contents(rng, len, 4, m);
    steer_ecap(id, &mut c, rng);
    c[0] = id as u8;
    c[1] = (id >> 8) as u8;
    if c[..3] == [0, 0, 0] {
        c[2] = 1;
    }
    c
}
