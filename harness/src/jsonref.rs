//! An independent reference for JSON: the document a `Node` stands for, and a strict parser.

use crate::node::{Hdr, Node};

/// A JSON document.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum J {
    Null,
    Bool(bool),
    /// The literal text of a number.
    Num(Vec<u8>),
    Str(Vec<u8>),
    Arr(Vec<J>),
    Obj(Vec<(Vec<u8>, J)>),
}

/// The document for a value; `Err` when JSON can't represent it (a complex key).
pub fn doc(n: &Node) -> Result<J, ()> {
    conv(n, Ctx { variant: false, big: false })
}

/// The same, with indexes beyond the range of i64.
pub fn doc_full(n: &Node) -> J {
    conv(n, Ctx { variant: false, big: true }).unwrap()
}

#[derive(Clone, Copy)]
struct Ctx {
    variant: bool,
    big: bool,
}

impl Ctx {
    fn inner(self) -> Ctx {
        Ctx { variant: false, ..self }
    }
    fn index(self, h: &Hdr) -> Option<i128> {
        let i = h.index.as_ref()?;
        match i.to_i64() {
            Some(i) => Some(i as i128),
            None if self.big => i.to_u64().map(|i| i as i128),
            None => None,
        }
    }
}

fn dec(mut v: u128, neg: bool) -> Vec<u8> {
    let mut out = Vec::new();
    loop {
        out.push(b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            break;
        }
    }
    if neg {
        out.push(b'-');
    }
    out.reverse();
    out
}

pub fn int(v: i128) -> J {
    J::Num(dec(v.unsigned_abs(), v < 0))
}

pub fn uint(v: u128) -> J {
    J::Num(dec(v, false))
}

/// Floats from a list: the ones whose shortest text is the only plausible one.
fn float(v: f64) -> J {
    if !v.is_finite() {
        J::Null
    } else if v == 1.5 {
        J::Num(b"1.5".to_vec())
    } else if v == -0.25 {
        J::Num(b"-0.25".to_vec())
    } else {
        unreachable!()
    }
}

/// The wrapper an enum variant's header calls for.
fn wrap(h: &Hdr, c: Ctx, v: J) -> J {
    if c.variant {
        if let Some(l) = &h.label {
            return J::Obj(vec![(l.s.as_bytes().to_vec(), v)]);
        }
        if let Some(i) = c.index(h) {
            return J::Obj(vec![(dec(i.unsigned_abs(), i < 0), v)]);
        }
    }
    v
}

fn tag(h: &Hdr, c: Ctx) -> J {
    if h.tag == Some(sval::tags::RUST_OPTION_NONE) {
        J::Null
    } else if let Some(l) = &h.label {
        J::Str(l.s.as_bytes().to_vec())
    } else if let Some(i) = c.index(h) {
        int(i)
    } else {
        J::Null
    }
}

fn conv(n: &Node, c: Ctx) -> Result<J, ()> {
    Ok(match n {
        Node::Null => J::Null,
        Node::Bool(b) => J::Bool(*b),
        Node::U8(v) => uint(*v as u128),
        Node::U16(v) => uint(*v as u128),
        Node::U32(v) => uint(*v as u128),
        Node::U64(v) => uint(*v as u128),
        Node::U128(v) => uint(*v),
        Node::I8(v) => int(*v as i128),
        Node::I16(v) => int(*v as i128),
        Node::I32(v) => int(*v as i128),
        Node::I64(v) => int(*v as i128),
        Node::I128(v) => int(*v),
        Node::F32(v) => float(*v as f64),
        Node::F64(v) => float(*v),
        Node::Text(_, frags) => {
            let mut s = Vec::new();
            for (_, f) in frags {
                s.extend_from_slice(f.as_bytes());
            }
            J::Str(s)
        }
        Node::Bin(_, frags) => {
            let mut a = Vec::new();
            for (_, f) in frags {
                for b in f.iter() {
                    a.push(uint(*b as u128));
                }
            }
            J::Arr(a)
        }
        Node::Tag(h) => tag(h, c),
        Node::Tagged(h, v) => {
            let v = match (conv(v, c.inner())?, &h.tag) {
                (J::Str(s), Some(t)) if *t == sval::tags::NUMBER => J::Num(s),
                (v, _) => v,
            };
            wrap(h, c, v)
        }
        Node::Enum(h, v) => {
            let inner = match v {
                Some(v) => conv(v, Ctx { variant: true, ..c })?,
                None => tag(h, c),
            };
            wrap(h, c, inner)
        }
        Node::Seq(_, vs) => {
            let mut a = Vec::new();
            for v in vs {
                a.push(conv(v, c.inner())?);
            }
            J::Arr(a)
        }
        Node::Map(_, vs) => {
            let mut o = Vec::new();
            for (k, v) in vs {
                let k = key(conv(k, c.inner())?)?;
                o.push((k, conv(v, c.inner())?));
            }
            J::Obj(o)
        }
        Node::Record(h, _, vs) => {
            let mut o = Vec::new();
            for (_, l, v) in vs {
                o.push((l.s.as_bytes().to_vec(), conv(v, c.inner())?));
            }
            wrap(h, c, J::Obj(o))
        }
        Node::RecordTuple(h, _, vs) => {
            let mut o = Vec::new();
            for (_, l, _, v) in vs {
                o.push((l.s.as_bytes().to_vec(), conv(v, c.inner())?));
            }
            wrap(h, c, J::Obj(o))
        }
        Node::Tuple(h, _, vs) => {
            let mut a = Vec::new();
            for (_, _, v) in vs {
                a.push(conv(v, c.inner())?);
            }
            wrap(h, c, J::Arr(a))
        }
        Node::Hint(_, v) | Node::ByValue(v) | Node::ByComputed(v) => conv(v, c)?,
        Node::Broken => return Err(()),
    })
}

fn key(j: J) -> Result<Vec<u8>, ()> {
    Ok(match j {
        J::Null => b"null".to_vec(),
        J::Bool(true) => b"true".to_vec(),
        J::Bool(false) => b"false".to_vec(),
        J::Num(n) => n,
        J::Str(s) => s,
        J::Arr(_) | J::Obj(_) => return Err(()),
    })
}

pub fn write_str(s: &[u8], out: &mut Vec<u8>) {
    out.push(b'"');
    for b in s {
        match *b {
            b'"' => out.extend_from_slice(b"\\\""),
            b'\\' => out.extend_from_slice(b"\\\\"),
            8 => out.extend_from_slice(b"\\b"),
            9 => out.extend_from_slice(b"\\t"),
            10 => out.extend_from_slice(b"\\n"),
            12 => out.extend_from_slice(b"\\f"),
            13 => out.extend_from_slice(b"\\r"),
            c if c < 0x20 => {
                out.extend_from_slice(b"\\u00");
                out.push(b'0' + (c >> 4));
                let lo = c & 15;
                out.push(if lo < 10 { b'0' + lo } else { b'a' + lo - 10 });
            }
            c => out.push(c),
        }
    }
    out.push(b'"');
}

pub fn write(j: &J, out: &mut Vec<u8>) {
    match j {
        J::Null => out.extend_from_slice(b"null"),
        J::Bool(true) => out.extend_from_slice(b"true"),
        J::Bool(false) => out.extend_from_slice(b"false"),
        J::Num(n) => out.extend_from_slice(n),
        J::Str(s) => write_str(s, out),
        J::Arr(vs) => {
            out.push(b'[');
            for (i, v) in vs.iter().enumerate() {
                if i > 0 {
                    out.push(b',');
                }
                write(v, out);
            }
            out.push(b']');
        }
        J::Obj(vs) => {
            out.push(b'{');
            for (i, (k, v)) in vs.iter().enumerate() {
                if i > 0 {
                    out.push(b',');
                }
                write_str(k, out);
                out.push(b':');
                write(v, out);
            }
            out.push(b'}');
        }
    }
}

/// The output is the expected document: byte for byte, or after parsing (so that another spelling
/// of the same document is no violation).
pub fn is_doc(out: &[u8], want: &J) -> bool {
    let mut w = Vec::with_capacity(256);
    write(want, &mut w);
    if out == &w[..] {
        return true;
    }
    match parse(out) {
        Some(j) => same(&j, want),
        None => false,
    }
}

#[inline(never)]
fn same(a: &J, b: &J) -> bool {
    a == b
}

/// A strict RFC 8259 parser (recursion bounded by the input's length).
#[inline(never)]
pub fn parse(b: &[u8]) -> Option<J> {
    let mut p = P { b, i: 0 };
    p.ws();
    let j = p.value(0)?;
    p.ws();
    if p.i == b.len() {
        Some(j)
    } else {
        None
    }
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn ws(&mut self) {
        while let Some(b' ' | b'\n' | b'\r' | b'\t') = self.peek() {
            self.i += 1;
        }
    }
    fn lit(&mut self, s: &[u8]) -> Option<()> {
        if self.b.len() - self.i >= s.len() && &self.b[self.i..self.i + s.len()] == s {
            self.i += s.len();
            Some(())
        } else {
            None
        }
    }
    fn value(&mut self, depth: u32) -> Option<J> {
        if depth > 200 {
            return None;
        }
        match self.peek()? {
            b'n' => self.lit(b"null").map(|_| J::Null),
            b't' => self.lit(b"true").map(|_| J::Bool(true)),
            b'f' => self.lit(b"false").map(|_| J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.peek()? == b']' {
                    self.i += 1;
                    return Some(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    match self.peek()? {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Some(J::Arr(v));
                        }
                        _ => return None,
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.peek()? == b'}' {
                    self.i += 1;
                    return Some(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.peek()? != b':' {
                        return None;
                    }
                    self.i += 1;
                    self.ws();
                    v.push((k, self.value(depth + 1)?));
                    self.ws();
                    match self.peek()? {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Some(J::Obj(v));
                        }
                        _ => return None,
                    }
                }
            }
            _ => self.number(),
        }
    }
    fn digits(&mut self) -> Option<()> {
        let s = self.i;
        while let Some(b'0'..=b'9') = self.peek() {
            self.i += 1;
        }
        if self.i > s {
            Some(())
        } else {
            None
        }
    }
    fn number(&mut self) -> Option<J> {
        let s = self.i;
        if self.peek()? == b'-' {
            self.i += 1;
        }
        match self.peek()? {
            b'0' => self.i += 1,
            b'1'..=b'9' => self.digits()?,
            _ => return None,
        }
        if self.peek() == Some(b'.') {
            self.i += 1;
            self.digits()?;
        }
        if let Some(b'e' | b'E') = self.peek() {
            self.i += 1;
            if let Some(b'+' | b'-') = self.peek() {
                self.i += 1;
            }
            self.digits()?;
        }
        Some(J::Num(self.b[s..self.i].to_vec()))
    }
    fn hex4(&mut self) -> Option<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let d = match self.peek()? {
                c @ b'0'..=b'9' => c - b'0',
                c @ b'a'..=b'f' => c - b'a' + 10,
                c @ b'A'..=b'F' => c - b'A' + 10,
                _ => return None,
            };
            self.i += 1;
            v = v * 16 + d as u32;
        }
        Some(v)
    }
    fn string(&mut self) -> Option<Vec<u8>> {
        if self.peek()? != b'"' {
            return None;
        }
        self.i += 1;
        let mut out = Vec::new();
        loop {
            match self.peek()? {
                b'"' => {
                    self.i += 1;
                    break;
                }
                b'\\' => {
                    self.i += 1;
                    let c = self.peek()?;
                    self.i += 1;
                    match c {
                        b'"' | b'\\' | b'/' => out.push(c),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'n' => out.push(10),
                        b'r' => out.push(13),
                        b't' => out.push(9),
                        b'u' => {
                            let mut c = self.hex4()?;
                            if (0xd800..0xdc00).contains(&c) {
                                self.lit(b"\\u")?;
                                let d = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&d) {
                                    return None;
                                }
                                c = 0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00);
                            }
                            let c = char::from_u32(c)?;
                            let mut b = [0; 4];
                            out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                        }
                        _ => return None,
                    }
                }
                c if c < 0x20 => return None,
                c => {
                    out.push(c);
                    self.i += 1;
                }
            }
        }
        if std::str::from_utf8(&out).is_err() {
            return None;
        }
        Some(out)
    }
}
