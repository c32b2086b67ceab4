//! Projection of decoded values onto the specification's vocabulary: the
//! `Debug` form of a value is parsed into a tree and flattened into
//! `path -> string` pairs (see spec/Bits.tla for the number format).
use std::collections::BTreeMap;
use std::fmt::Debug;

pub type Map = BTreeMap<String, String>;

#[derive(Debug, Clone)]
enum Node {
    Leaf(String),
    Struct(String, Vec<(String, Node)>),
    Tuple(String, Vec<Node>),
    List(Vec<Node>),
}

pub fn num(v: u128) -> String {
    if v < (1 << 31) {
        v.to_string()
    } else {
        format!("hex:{v:x}")
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'+' {
                self.i += 1;
            } else {
                break;
            }
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn seq(&mut self, close: u8) -> Vec<Node> {
        let mut v = vec![];
        while !self.eat(close) {
            v.push(self.node());
            self.eat(b',');
        }
        v
    }
    fn node(&mut self) -> Node {
        match self.peek() {
            b'[' => {
                self.i += 1;
                Node::List(self.seq(b']'))
            }
            b'(' => {
                self.i += 1;
                Node::Tuple(String::new(), self.seq(b')'))
            }
            b'"' => {
                self.i += 1;
                let st = self.i;
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
                self.i += 1;
                Node::Leaf(r)
            }
            _ => {
                let w = self.word();
                if w.is_empty() {
                    // anything else is kept verbatim, one character at a time
                    let c = self.s[self.i] as char;
                    self.i += 1;
                    return Node::Leaf(c.to_string());
                }
                if let Ok(v) = w.parse::<u128>() {
                    return Node::Leaf(num(v));
                }
                // structs are printed as `Name { .. }`, tuples as `Name(..)`
                if self.i < self.s.len() && self.s[self.i] == b'(' {
                    self.i += 1;
                    return Node::Tuple(w, self.seq(b')'));
                }
                if self.peek() == b'{' {
                    self.i += 1;
                    let mut f = vec![];
                    while !self.eat(b'}') {
                        let k = self.word();
                        self.eat(b':');
                        let n = self.node();
                        f.push((k, n));
                        self.eat(b',');
                    }
                    return Node::Struct(w, f);
                }
                Node::Leaf(w)
            }
        }
    }
}

impl Node {
    fn inline(&self) -> Option<String> {
        match self {
            Node::Leaf(s) => Some(s.clone()),
            Node::Tuple(n, a) if a.len() == 1 => a[0].inline().map(|x| format!("{n}({x})")),
            _ => None,
        }
    }
    /// Emits the children under `pre` and returns this node's own value.
    fn emit(&self, pre: &str, out: &mut Map) -> String {
        if let Some(s) = self.inline() {
            return s;
        }
        let sub = |k: &str| {
            if pre.is_empty() {
                k.to_string()
            } else {
                format!("{pre}.{k}")
            }
        };
        let put = |k: &str, n: &Node, out: &mut Map| {
            let p = sub(k);
            let v = n.emit(&p, out);
            if !v.is_empty() {
                out.insert(p, v);
            }
        };
        match self {
            Node::Leaf(s) => s.clone(),
            Node::Struct(n, f) => {
                for (k, v) in f {
                    put(k, v, out);
                }
                n.clone()
            }
            Node::Tuple(n, a) if a.len() == 1 => {
                let inner = a[0].emit(pre, out);
                if inner.is_empty() {
                    n.clone()
                } else {
                    format!("{n}:{inner}")
                }
            }
            Node::Tuple(n, a) => {
                for (k, v) in a.iter().enumerate() {
                    put(&k.to_string(), v, out);
                }
                n.clone()
            }
            Node::List(a) => {
                out.insert(sub("#"), a.len().to_string());
                for (k, v) in a.iter().enumerate() {
                    put(&k.to_string(), v, out);
                }
                String::new()
            }
        }
    }
}

/// Flattens `v` under the path `pre` ("" is the root, whose own value is "$").
pub fn flat(pre: &str, v: &dyn Debug, out: &mut Map) {
    let s = format!("{v:?}");
    let n = P { s: s.as_bytes(), i: 0 }.node();
    let own = n.emit(pre, out);
    if !own.is_empty() {
        out.insert(if pre.is_empty() { "$".into() } else { pre.into() }, own);
    }
}

/// Flattens `v`, whose fields the crate keeps to itself: shown under other
/// names, they are taken in their order.
pub fn flat_as(pre: &str, v: &dyn Debug, names: &[&str], out: &mut Map) {
    let s = format!("{v:?}");
    let (kind, mut fields) = match (P { s: s.as_bytes(), i: 0 }).node() {
        Node::Struct(k, f) => (k, f),
        Node::Tuple(k, f) => (k, f.into_iter().map(|n| (String::new(), n)).collect()),
        _ => return flat(pre, v, out),
    };
    if fields.len() == names.len() && !names.iter().all(|n| fields.iter().any(|f| f.0 == *n)) {
        for (f, n) in fields.iter_mut().zip(names) {
            f.0 = n.to_string();
        }
    }
    let own = Node::Struct(kind, fields).emit(pre, out);
    out.insert(pre.into(), own);
}
pub const LANE: [&str; 4] = [
    "downstream_port_transmitter_preset",
    "downstream_port_receiver_preset_hint",
    "upstream_port_transmitter_preset",
    "upstream_port_receiver_preset_hint",
];

pub fn esc(s: &str) -> String {
    let mut r = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r
}

pub fn json(m: &Map) -> String {
    let mut r = String::from("{");
    for (i, (k, v)) in m.iter().enumerate() {
        if i > 0 {
            r.push(',');
        }
        r.push_str(&format!("\"{}\":\"{}\"", esc(k), esc(v)));
    }
    r.push('}');
    r
}

pub fn bytes(b: &[u8]) -> String {
    let mut r = String::from("[");
    for (i, v) in b.iter().enumerate() {
        if i > 0 {
            r.push(',');
        }
        r.push_str(&v.to_string());
    }
    r.push(']');
    r
}
