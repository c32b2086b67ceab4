use std::sync::OnceLock;

/// Numbers worth trying: those written in the source of the code under test
/// (what it compares with), each also off by one.  They only decide what is
/// tried, never what is right.
pub fn dictionary() -> &'static [u32] {
    static D: OnceLock<Vec<u32>> = OnceLock::new();
    D.get_or_init(|| {
        let mut v = vec![];
        let dir = std::env::var("PCICS_SRC").unwrap_or_else(|_| "/repo/src".into());
        scan(std::path::Path::new(&dir), &mut v);
        let mut w: Vec<u32> = v.iter().flat_map(|&x| [x, x.wrapping_add(1), x.wrapping_sub(1)]).collect();
        w.sort_unstable();
        w.dedup();
        if w.is_empty() {
            w = vec![0, 1, 0xff, 0x100, 0xffff];
        }
        w
    })
}
fn scan(p: &std::path::Path, v: &mut Vec<u32>) {
    if let Ok(d) = std::fs::read_dir(p) {
        let mut e: Vec<_> = d.flatten().map(|e| e.path()).collect();
        e.sort();
        e.iter().for_each(|p| scan(p, v));
    } else if p.extension().map_or(false, |e| e == "rs") {
        let s = std::fs::read_to_string(p).unwrap_or_default();
        let s = s.split("#[cfg(test)]").next().unwrap_or("");
        let mut doc = false;
        for l in s.lines() {
            doc |= l.trim_start().starts_with("/*");
            if !doc {
                numbers(l.split("//").next().unwrap_or(""), v);
            }
            doc &= !l.contains("*/");
        }
    }
}
fn numbers(l: &str, v: &mut Vec<u32>) {
    for t in l.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
        if !t.starts_with(|c: char| c.is_ascii_digit()) {
            continue;
        }
        let t = t.replace('_', "");
        let (radix, d) = match t.get(..2) {
            Some("0x") => (16, &t[2..]),
            Some("0b") => (2, &t[2..]),
            Some("0o") => (8, &t[2..]),
            _ => (10, &t[..]),
        };
        let d = d.split(|c| c == 'u' || c == 'i').next().unwrap_or("");
        if let Ok(n) = u64::from_str_radix(d, radix) {
            v.push(n as u32);
            if n >> 32 != 0 {
                v.push((n >> 32) as u32);
            }
        }
    }
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    /// A number of the dictionary, large ones as often as small ones.
    pub fn word(&mut self) -> u32 {
        let d = dictionary();
        let small = d.partition_point(|x| *x < 256).min(d.len() - 1);
        let k = if self.chance(1, 2) { self.below(small.max(1)) } else { small + self.below(d.len() - small) };
        d[k]
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// Bytes as they occur in registers: uniform, sparse, saturated or mixed.
    pub fn regs(&mut self, n: usize) -> Vec<u8> {
        match self.below(12) {
            // registers that equal one another or nearly so
            10 if n >= 4 => {
                let mut v = self.bytes(n);
                for _ in 0..1 + self.below(3) {
                    let w = self.pick(&[1usize, 2, 4]);
                    let (a, b) = (self.below(n / w) * w, self.below(n / w) * w);
                    v.copy_within(a..a + w, b);
                    if self.chance(1, 3) {
                        v[b] = v[b].wrapping_add(self.pick(&[1u8, 0xff, 0x10, 0xf0]));
                    }
                }
                v
            }
            // few registers set
            11 => {
                let mut v = vec![0; n];
                for _ in 0..1 + self.below(3) {
                    let k = self.below(n.max(1));
                    if k < n {
                        v[k] = self.byte();
                    }
                }
                v
            }
            8 | 9 => {
                let mut v = if self.chance(1, 2) { self.bytes(n) } else { vec![0; n] };
                for _ in 0..1 + self.below(4.min(1 + n / 4)) {
                    let mut d = self.word();
                    if self.chance(1, 3) {
                        d <<= self.below(16);
                    }
                    let k = self.below(n.max(1));
                    let w = if d > 0xffff { 4 } else if d > 0xff { 2 } else { self.pick(&[1usize, 1, 2, 4]) };
                    let k = k / w.min(4) * w;
                    for (i, b) in d.to_le_bytes().iter().enumerate().take(w) {
                        if k + i < n {
                            v[k + i] = *b;
                        }
                    }
                }
                v
            }
            0 => (0..n).map(|_| if self.chance(1, 8) { 1 << self.below(8) } else { 0 }).collect(),
            1 => (0..n).map(|_| if self.chance(1, 8) { !(1 << self.below(8)) } else { 0xff }).collect(),
            2 => (0..n).map(|_| self.pick(&[0u8, 0xff, 0x80, 0x7f, 1, 0xfe])).collect(),
            3 => {
                let mut v = Vec::new();
                while v.len() < n {
                    let w = self.next() as u32;
                    let d: u32 = self.pick(&[0u32, u32::MAX, 0x8000_0000, 0x7fff_ffff, 0xffff, 0xffff_0000, w, 1, 0xff00]);
                    v.extend_from_slice(&d.to_le_bytes());
                }
                v.truncate(n);
                v
            }
            _ => self.bytes(n),
        }
    }
}
