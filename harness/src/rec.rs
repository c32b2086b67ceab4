//! Recording of observations: one JSON line per operation on the real code.
use crate::flat::{bytes, esc, json, Map};
use crate::observe;
use pcics::{Capabilities, ExtendedCapabilities, Header};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{atomic::{AtomicU64, Ordering}, Mutex};

pub static BEAT: AtomicU64 = AtomicU64::new(0);
pub static NOW: Mutex<String> = Mutex::new(String::new());

#[derive(Clone, Default)]
pub struct Dev {
    pub h: Vec<u8>,
    pub d: Vec<u8>,
    pub x: Vec<u8>,
}

pub struct Rec {
    files: Vec<BufWriter<File>>,
    cur: usize,
    start: i32,
    pub lines: u64,
    pub devices: u64,
}

/// Runs one operation on the code under test; a panic is an observation.
fn op<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    BEAT.fetch_add(1, Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    });
    BEAT.fetch_add(1, Ordering::Relaxed);
    r
}

#[derive(Debug, PartialEq)]
pub enum Seen {
    Item { at: u16, kind: String, id: u32, version: u32, f: Map },
    Err(String),
    End,
    Panic(String),
    /// no end after more steps than there is room for structures
    Endless,
}

/// The next report, or the one after `skip` others.
fn ask<I: Iterator>(it: &mut I, skip: usize) -> Option<I::Item> {
    if skip == 0 {
        it.next()
    } else {
        it.nth(skip)
    }
}
pub fn see_cap(it: &mut Capabilities, skip: usize) -> Seen {
    match op(|| match ask(it, skip) {
        None => Seen::End,
        Some(Err(e)) => Seen::Err(e.to_string()),
        Some(Ok(c)) => {
            let (kind, f) = observe::cap(&c.kind);
            Seen::Item { at: c.pointer as u16, kind, id: 0, version: 0, f }
        }
    }) {
        Ok(s) => s,
        Err(e) => Seen::Panic(e),
    }
}
pub fn see_ecap(it: &mut ExtendedCapabilities, skip: usize) -> Seen {
    match op(|| match ask(it, skip) {
        None => Seen::End,
        Some(Err(e)) => Seen::Err(e.to_string()),
        Some(Ok(c)) => {
            let (kind, f) = observe::ecap(&c.kind);
            Seen::Item { at: c.offset, kind, id: c.id() as u32, version: c.version as u32, f }
        }
    }) {
        Ok(s) => s,
        Err(e) => Seen::Panic(e),
    }
}

impl Rec {
    pub fn new(dir: &str, chunks: usize) -> Self {
        let files = (0..chunks)
            .map(|i| BufWriter::new(File::create(format!("{dir}/t{i}.ndjson")).unwrap()))
            .collect();
        Rec { files, cur: 0, start: -1, lines: 0, devices: 0 }
    }
    pub fn line(&mut self, s: &str) {
        let f = &mut self.files[self.cur];
        f.write_all(s.as_bytes()).unwrap();
        f.write_all(b"\n").unwrap();
        self.lines += 1;
    }
    pub fn next_chunk(&mut self) {
        self.cur = (self.cur + 1) % self.files.len();
    }
    pub fn flush(&mut self) {
        for f in &mut self.files {
            f.flush().unwrap();
        }
    }
    /// Starts the observations of a device.
    pub fn dev(&mut self, d: &Dev) {
        self.next_chunk();
        self.devices += 1;
        let s = format!("{{\"k\":\"dev\",\"h\":{},\"d\":{},\"x\":{}}}", bytes(&d.h), bytes(&d.d), bytes(&d.x));
        *NOW.lock().unwrap() = s.clone();
        self.line(&s);
    }
    fn out(&mut self, k: &str, extra: String, r: Result<Result<Map, String>, String>) {
        let s = match r {
            Ok(Ok(f)) => format!("{{\"k\":\"{k}\"{extra},\"t\":\"item\",\"e\":\"\",\"f\":{}}}", json(&f)),
            Ok(Err(e)) => format!("{{\"k\":\"{k}\"{extra},\"t\":\"err\",\"e\":\"{}\",\"f\":{{\"$\":\"\"}}}}", esc(&e)),
            Err(p) => format!("{{\"k\":\"{k}\"{extra},\"t\":\"panic\",\"e\":\"{}\",\"f\":{{\"$\":\"\"}}}}", esc(&p)),
        };
        self.line(&s);
    }
    /// A pure function, independent of any device.
    pub fn pure(&mut self, k: &str, extra: String, f: impl FnOnce() -> Result<Map, String>) {
        self.next_chunk();
        self.simple(k, extra, f);
    }
    pub fn simple(&mut self, k: &str, extra: String, f: impl FnOnce() -> Result<Map, String>) {
        *NOW.lock().unwrap() = format!("{{\"k\":\"{k}\"{extra}}}");
        let r = op(f);
        self.out(k, extra, r);
    }
    /// The header of the current device, as decoded from its first bytes.
    pub fn hdr(&mut self, b: &[u8]) -> Option<Header> {
        let r = op(|| Header::try_from(b).map(|h| (observe::header(&h), h)).map_err(|e| e.to_string()));
        let (m, h) = match r {
            Ok(Ok((m, h))) => (Ok(Ok(m)), Some(h)),
            Ok(Err(e)) => (Ok(Err(e)), None),
            Err(p) => (Err(p), None),
        };
        self.out("hdr", String::new(), m);
        h
    }
    fn seen(&mut self, k: &str, i: usize, s: &Seen) -> bool {
        let (l, go) = match s {
            Seen::Item { at, kind, id, version, f } => (
                format!(
                    "{{\"k\":\"{k}\",\"i\":{i},\"t\":\"item\",\"at\":{at},\"kind\":\"{}\",\"id\":{id},\"version\":{version},\"e\":\"\",\"f\":{}}}",
                    esc(kind), json(f)
                ),
                true,
            ),
            Seen::Err(e) => (
                format!("{{\"k\":\"{k}\",\"i\":{i},\"t\":\"err\",\"at\":0,\"kind\":\"\",\"id\":0,\"version\":0,\"e\":\"{}\",\"f\":{{\"$\":\"\"}}}}", esc(e)),
                true,
            ),
            Seen::End => (
                format!("{{\"k\":\"{k}\",\"i\":{i},\"t\":\"end\",\"at\":0,\"kind\":\"\",\"id\":0,\"version\":0,\"e\":\"\",\"f\":{{\"$\":\"\"}}}}"),
                false,
            ),
            Seen::Endless => (
                format!("{{\"k\":\"{k}\",\"i\":{i},\"t\":\"endless\",\"at\":0,\"kind\":\"\",\"id\":0,\"version\":0,\"e\":\"\",\"f\":{{\"$\":\"\"}}}}"),
                false,
            ),
            Seen::Panic(e) => (
                format!("{{\"k\":\"{k}\",\"i\":{i},\"t\":\"panic\",\"at\":0,\"kind\":\"\",\"id\":0,\"version\":0,\"e\":\"{}\",\"f\":{{\"$\":\"\"}}}}", esc(e)),
                false,
            ),
        };
        self.line(&l);
        go
    }
    /// Walks the capability list of a header whose pointer was set by hand.
    pub fn walk_from(&mut self, dev: &Dev, pointer: u8) {
        if let Ok(Some(mut h)) = op(|| Header::try_from(dev.h.as_slice()).ok()) {
            h.capabilities_pointer = pointer;
            let mut a = Capabilities::new(&dev.d, &h);
            self.start = pointer as i32;
            self.walk_with("cap", None, &mut a, see_cap);
            self.start = -1;
        }
    }
    /// Walks both lists to the end; `script` interleaves a second handle,
    /// cloned from the first after `clone_at` steps.
    pub fn walk(&mut self, dev: &Dev, legacy: bool, extended: bool, script: Option<(usize, u64)>) {
        let h = match op(|| Header::try_from(dev.h.as_slice()).ok()) {
            Ok(Some(h)) => h,
            _ => return,
        };
        if legacy {
            let mut a = Capabilities::new(&dev.d, &h);
            self.walk_with("cap", script, &mut a, see_cap);
        }
        if extended {
            let mut a = ExtendedCapabilities::new(&dev.x);
            self.walk_with("ecap", script, &mut a, see_ecap);
        }
    }
    /// Walks over several devices, one call here, one there (or at the same
    /// time, in threads); each is recorded as if it had been alone, or
    /// compared with what it reports when it is.
    pub fn together(&mut self, devs: &[Dev], mut order: u64, threads: bool, compare: bool) {
        let hs: Vec<_> = devs.iter().map(|d| op(|| Header::try_from(d.h.as_slice()).ok()).ok().flatten()).collect();
        enum It<'a> {
            Cap(Capabilities<'a>),
            Ecap(ExtendedCapabilities<'a>),
        }
        let step = |it: &mut It| match it {
            It::Cap(a) => see_cap(a, 0),
            It::Ecap(a) => see_ecap(a, 0),
        };
        let mut its: Vec<(usize, It, Vec<Seen>, usize)> = vec![];
        for (i, d) in devs.iter().enumerate() {
            if let (Some(h), false) = (&hs[i], d.d.is_empty()) {
                its.push((i, It::Cap(Capabilities::new(&d.d, h)), vec![], 0));
            }
            if !d.x.is_empty() {
                its.push((i, It::Ecap(ExtendedCapabilities::new(&d.x)), vec![], 0));
            }
        }
        let go = |w: &mut (usize, It, Vec<Seen>, usize)| {
            let s = if w.2.len() > 1100 { Seen::Endless } else { step(&mut w.1) };
            match s {
                Seen::End => w.3 += 1,
                Seen::Panic(_) | Seen::Endless => w.3 = 3,
                _ => (),
            }
            w.2.push(s);
        };
        let all = devs.iter().map(|d| format!("{{\"h\":{},\"d\":{},\"x\":{}}}", bytes(&d.h), bytes(&d.d), bytes(&d.x))).collect::<Vec<_>>();
        *NOW.lock().unwrap() = format!("{{\"k\":\"together\",\"devs\":[{}]}}", all.join(","));
        if threads {
            std::thread::scope(|sc| {
                for w in &mut its {
                    sc.spawn(|| {
                        while w.3 < 2 {
                            go(w);
                        }
                    });
                }
            });
        } else {
            while its.iter().any(|w| w.3 < 2) {
                let k = order as usize % its.len();
                order = order.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407).rotate_right(7);
                if its[k].3 < 2 {
                    go(&mut its[k]);
                }
            }
        }
        if compare {
            for (i, it, seen, _) in its {
                let (cap, mut w) = match (&it, &hs[i]) {
                    (It::Cap(_), Some(h)) => (true, (i, It::Cap(Capabilities::new(&devs[i].d, h)), vec![], 0)),
                    _ => (false, (i, It::Ecap(ExtendedCapabilities::new(&devs[i].x)), vec![], 0)),
                };
                while w.3 < 2 {
                    go(&mut w);
                }
                let same = if w.2 == seen { "same" } else { "differs" };
                let d = &devs[i];
                let b = format!(",\"w\":\"{}\",\"h\":{},\"d\":{},\"x\":{}", if cap { "cap" } else { "ecap" }, bytes(&d.h), bytes(&d.d), bytes(&d.x));
                self.pure("apart", b, || Ok([("alone".to_string(), same.to_string())].into_iter().collect()));
            }
            return;
        }
        for (i, it, seen, _) in its {
            let k = if let It::Cap(_) = it { "cap" } else { "ecap" };
            self.dev(&devs[i]);
            self.line(&format!("{{\"k\":\"open\",\"w\":\"{k}\",\"i\":1,\"p\":-1}}"));
            for s in &seen {
                self.seen(k, 1, s);
            }
        }
    }
    fn walk_with<I: Iterator + Clone + PartialEq>(
        &mut self,
        k: &str,
        script: Option<(usize, u64)>,
        a: &mut I,
        see: impl Fn(&mut I, usize) -> Seen,
    ) where
        I::Item: std::fmt::Debug,
    {
        let p = self.start;
        self.line(&format!("{{\"k\":\"open\",\"w\":\"{k}\",\"i\":1,\"p\":{p}}}"));
        // more steps than the configuration space has room for structures
        let cap = 1100;
        let (clone_at, mut order) = script.unwrap_or((usize::MAX, 0));
        let mut b: Option<I> = None;
        // steps taken and, once ended, further calls (it must stay ended)
        let mut n = [0usize; 2];
        let mut ended = [0usize; 2];
        loop {
            if b.is_none() && n[0] + ended[0] == clone_at {
                b = Some(a.clone());
                self.line(&format!("{{\"k\":\"clone\",\"w\":\"{k}\",\"from\":1,\"to\":2}}"));
            }
            order = order.rotate_right(1);
            let open = [ended[0] < 3, b.is_some() && ended[1] < 3];
            let i = match open {
                [false, false] => break,
                [true, false] => 0,
                [false, true] => 1,
                _ => (order & 1) as usize,
            };
            // now and then a few are skipped, or what is left is counted
            let mut skip = 0;
            if script.is_some() && ended[i] == 0 {
                skip = [0, 0, 0, 0, 1, 0, 2, 0][(order >> 20 & 7) as usize];
                if order >> 40 & 7 == 0 {
                    let it = if i == 1 { b.as_ref().unwrap_or(a) } else { &*a };
                    self.count(k, i + 1, it);
                }
            }
            self.pass(k, i + 1, skip);
            let s = match (i, &mut b) {
                (1, Some(b)) => see(b, skip),
                _ => see(a, skip),
            };
            let go = self.seen(k, i + 1, &s);
            if let Seen::Panic(_) = s {
                break;
            }
            if go {
                n[i] += 1;
                if ended[i] > 0 {
                    ended[i] += 1; // came back to life: already recorded
                }
            } else {
                ended[i] += 1;
            }
            if n[i] > cap {
                self.seen(k, i + 1, &Seen::Endless);
                break;
            }
            if let Some(b) = &b {
                self.same(k, a, b);
            }
        }
    }
    /// The next call on handle i skips n reports.
    fn pass(&mut self, k: &str, i: usize, n: usize) {
        if n > 0 {
            self.line(&format!("{{\"k\":\"pass\",\"w\":\"{k}\",\"i\":{i},\"n\":{n}}}"));
        }
    }
    /// How many reports a duplicate of the handle counts.
    fn count<I: Iterator + Clone>(&mut self, k: &str, i: usize, it: &I)
    where
        I::Item: std::fmt::Debug,
    {
        let r = op(|| {
            // (an endless one is stopped)
            let n = it.clone().take(1 << 16).count();
            let m = if n < 1 << 16 { it.clone().count() } else { n };
            let (lo, hi) = it.size_hint();
            let hint = lo <= n && hi.map_or(true, |h| n <= h);
            // (asked in every way only now and then)
            let ways = if n < 100 {
                let mut a = it.clone();
                let mut v = vec![];
                while let (true, Some(e)) = (v.len() < 200, a.next()) {
                    v.push(format!("{e:?}"));
                }
                observe::ways(it, &v)
            } else {
                "same".into()
            };
            Ok([("count".to_string(), m.to_string()), ("hint".to_string(), hint.to_string()), ("ways".to_string(), ways)].into_iter().collect())
        });
        self.out("count", format!(",\"w\":\"{k}\",\"i\":{i}"), r);
    }
    /// Whether the two handles compare equal.
    fn same<I: PartialEq>(&mut self, k: &str, a: &I, b: &I) {
        let r = op(|| {
            let e = a == b;
            let both = e == (b == a) && e != (a != b);
            Ok([("eq".to_string(), e.to_string()), ("symmetric".to_string(), both.to_string())].into_iter().collect())
        });
        self.out("same", format!(",\"w\":\"{k}\""), r);
    }
    /// One walk, the calls made in the given order.
    pub fn script(&mut self, dev: &Dev, k: &str, ops: &[usize]) {
        let h = match op(|| Header::try_from(dev.h.as_slice()).ok()) {
            Ok(Some(h)) => h,
            _ => return,
        };
        self.line(&format!("{{\"k\":\"open\",\"w\":\"{k}\",\"i\":1,\"p\":-1}}"));
        if k == "cap" {
            self.play(k, Capabilities::new(&dev.d, &h), ops, see_cap);
        } else {
            self.play(k, ExtendedCapabilities::new(&dev.x), ops, see_ecap);
        }
    }
    /// An iterator over contents, the calls made in the given order.
    pub fn iter_script<I: Iterator + Clone + PartialEq>(
        &mut self,
        (n, b, v): (&str, &[u8], usize),
        make: impl FnOnce() -> I,
        ops: &[usize],
        show: impl Fn(&I::Item, &mut Map),
    ) where
        I::Item: std::fmt::Debug,
    {
        let s = format!("{{\"k\":\"iopen\",\"n\":\"{n}\",\"b\":{},\"v\":{v}}}", bytes(b));
        *NOW.lock().unwrap() = s.clone();
        self.next_chunk();
        self.devices += 1;
        self.line(&s);
        match op(make) {
            Err(e) => {
                self.seen("nx", 1, &Seen::Panic(e));
            }
            Ok(it) => self.play("nx", it, ops, |it, skip| {
                match op(|| {
                    ask(it, skip).map(|e| {
                        let mut m = Map::new();
                        show(&e, &mut m);
                        m
                    })
                }) {
                    Ok(Some(f)) => Seen::Item { at: 0, kind: String::new(), id: 0, version: 0, f },
                    Ok(None) => Seen::End,
                    Err(e) => Seen::Panic(e),
                }
            }),
        }
    }
    /// 0: the first handle is duplicated; 1, 2: that handle is asked for the
    /// next; 10 n + 1, 10 n + 2: for the one after n others; 3, 4: what is
    /// left in the first, the second is counted.
    fn play<I: Iterator + Clone + PartialEq>(&mut self, k: &str, a: I, ops: &[usize], see: impl Fn(&mut I, usize) -> Seen)
    where
        I::Item: std::fmt::Debug,
    {
        let mut hs = vec![a];
        for &o in ops {
            let (skip, o) = (o / 10, o % 10);
            match o {
                0 => {
                    let b = hs[0].clone();
                    hs.push(b);
                    self.line(&format!("{{\"k\":\"clone\",\"w\":\"{k}\",\"from\":1,\"to\":2}}"));
                }
                3 | 4 => self.count(k, o - 2, &hs[o - 3]),
                _ => {
                    self.pass(k, o, skip);
                    let s = see(&mut hs[o - 1], skip);
                    self.seen(k, o, &s);
                    if let Seen::Panic(_) = s {
                        break;
                    }
                }
            }
            if let [a, b] = hs.as_slice() {
                self.same(k, a, b);
            }
        }
    }
    /// The optional registers of a CardBus header, from the device
    /// dependent region.
    pub fn opt(&mut self, dev: &Dev) {
        let r = op(|| {
            let mut h = Header::try_from(dev.h.as_slice()).map_err(|e| e.to_string())?;
            match &mut h.header_type {
                pcics::header::HeaderType::Cardbus(c) => {
                    // what was set before is replaced, or kept if nothing can be set
                    let first = c.clone();
                    let mut other = c.clone();
                    let _ = other.try_set_optional_registers(&[0xa5; 64]);
                    let before = other.clone();
                    if let Err(e) = c.try_set_optional_registers(&dev.d) {
                        let left = *c != first || other.try_set_optional_registers(&dev.d).is_ok() || other != before;
                        return Err(format!("{e}{}", if left { ", yet something was set" } else { "" }));
                    }
                    let mut m = Map::new();
                    let again = other.try_set_optional_registers(&dev.d).is_ok() && other == *c;
                    m.insert("again".into(), if again { "same" } else { "differs" }.into());
                    let mut rest = c.clone();
                    rest.subsystem_vendor_id = None;
                    rest.subsystem_device_id = None;
                    rest.legacy_mode_base_address = None;
                    rest.reserved = None;
                    m.insert("rest".into(), if rest == first { "kept" } else { "changed" }.into());
                    crate::flat::flat("subsystem_vendor_id", &c.subsystem_vendor_id, &mut m);
                    crate::flat::flat("subsystem_device_id", &c.subsystem_device_id, &mut m);
                    crate::flat::flat("legacy_mode_base_address", &c.legacy_mode_base_address, &mut m);
                    crate::flat::flat("reserved", &c.reserved, &mut m);
                    Ok(m)
                }
                _ => Err("not a CardBus header".into()),
            }
        });
        self.out("opt", String::new(), r);
    }
}
