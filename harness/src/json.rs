//! A small JSON reader and writer: all the drivers need.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    B(bool),
    N(i64),
    S(String),
    A(Vec<V>),
    O(BTreeMap<String, V>),
}

impl V {
    pub fn obj() -> V {
        V::O(BTreeMap::new())
    }
    pub fn with(mut self, k: &str, v: V) -> V {
        self.set(k, v);
        self
    }
    pub fn set(&mut self, k: &str, v: V) {
        if let V::O(m) = self {
            m.insert(k.to_string(), v);
        }
    }
    pub fn get(&self, k: &str) -> &V {
        static NULL: V = V::Null;
        match self {
            V::O(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn n(&self) -> i64 {
        match self {
            V::N(n) => *n,
            _ => 0,
        }
    }
    pub fn b(&self) -> bool {
        matches!(self, V::B(true))
    }
    pub fn s(&self) -> &str {
        match self {
            V::S(s) => s,
            _ => "",
        }
    }
    pub fn a(&self) -> &[V] {
        match self {
            V::A(a) => a,
            _ => &[],
        }
    }
    /// A text: an array of code points.
    pub fn text(&self) -> String {
        self.a().iter().filter_map(|c| char::from_u32(c.n() as u32)).collect()
    }
    /// What a file has: a text, -1 being a byte that is no part of any.
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        for c in self.a() {
            match char::from_u32(c.n() as u32) {
                _ if c.n() < 0 => v.push(0xff),
                Some(c) => v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
                None => {}
            }
        }
        v
    }
    pub fn texts(&self) -> Vec<String> {
        self.a().iter().map(|t| t.text()).collect()
    }
    pub fn write(&self, out: &mut String) {
        match self {
            V::Null => out.push_str("null"),
            V::B(b) => out.push_str(if *b { "true" } else { "false" }),
            V::N(n) => write!(out, "{}", n).unwrap(),
            V::S(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 32 => write!(out, "\\u{:04x}", c as u32).unwrap(),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            V::A(a) => {
                out.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    v.write(out);
                }
                out.push(']');
            }
            V::O(m) => {
                out.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    V::S(k.clone()).write(out);
                    out.push(':');
                    v.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn to_json(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}

pub fn text(s: &str) -> V {
    V::A(s.chars().map(|c| V::N(c as i64)).collect())
}
/// What a file has, as above; -2 for other bytes that are no text.
pub fn bytes(b: &[u8]) -> V {
    let mut v = vec![];
    for part in b.utf8_chunks() {
        v.extend(part.valid().chars().map(|c| V::N(c as i64)));
        v.extend(part.invalid().iter().map(|&b| V::N(if b == 0xff { -1 } else { -2 })));
    }
    V::A(v)
}
pub fn texts<S: AsRef<str>>(l: &[S]) -> V {
    V::A(l.iter().map(|s| text(s.as_ref())).collect())
}
pub fn num(n: usize) -> V {
    V::N(n as i64)
}

pub fn parse(s: &str) -> V {
    let b = s.as_bytes();
    let mut i = 0;
    val(b, &mut i)
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> V {
    ws(b, i);
    if *i >= b.len() {
        return V::Null;
    }
    match b[*i] {
        b'{' => {
            let mut m = BTreeMap::new();
            *i += 1;
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    break;
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let k = val(b, i).s().to_string();
                ws(b, i);
                assert!(b[*i] == b':', "bad json");
                *i += 1;
                m.insert(k, val(b, i));
            }
            V::O(m)
        }
        b'[' => {
            let mut a = vec![];
            *i += 1;
            loop {
                ws(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    break;
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                a.push(val(b, i));
            }
            V::A(a)
        }
        b'"' => {
            *i += 1;
            let mut out: Vec<u8> = vec![];
            while b[*i] != b'"' {
                if b[*i] == b'\\' {
                    *i += 1;
                    match b[*i] {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'u' => {
                            let h = std::str::from_utf8(&b[*i + 1..*i + 5]).unwrap();
                            let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap_or('?');
                            let mut t = [0; 4];
                            out.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                            *i += 4;
                        }
                        c => out.push(c),
                    }
                } else {
                    out.push(b[*i]);
                }
                *i += 1;
            }
            *i += 1;
            V::S(String::from_utf8_lossy(&out).into_owned())
        }
        b't' => {
            *i += 4;
            V::B(true)
        }
        b'f' => {
            *i += 5;
            V::B(false)
        }
        b'n' => {
            *i += 4;
            V::Null
        }
        _ => {
            let st = *i;
            *i += 1;
            while *i < b.len() && (b[*i].is_ascii_digit() || b[*i] == b'.') {
                *i += 1;
            }
            V::N(std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap_or(0))
        }
    }
}
