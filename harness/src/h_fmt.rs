//! Debug-style text output.
use crate::node::{Gen, Hdr, Lab, Node, H, K};
use crate::shapes::{chain, leaf_within, long_text, one_byte_text, two_leaves, wide};
use crate::{check, harnesses, rt};
use std::fmt::{self, Write as _};
use sval::{Stream, Tag, Value};
use sval_fmt::TokenWrite;

const NUM: u8 = 1;
const ATOM: u8 = 2;
const IDENT: u8 = 3;
const PUNCT: u8 = 4;
const WS: u8 = 5;
const TEXT: u8 = 6;

/// Text with the class of the token every byte belongs to.
#[derive(Default)]
struct Out {
    b: Vec<u8>,
    c: Vec<u8>,
}

impl Out {
    fn put(&mut self, class: u8, s: &[u8]) {
        for x in s {
            self.b.push(*x);
            self.c.push(class);
        }
    }
}


/// The text of one ASCII character inside a string, as in Rust source.
fn escape(c: u8, out: &mut Vec<u8>) {
    let e = match c {
        b'\t' => b't',
        b'\n' => b'n',
        b'\r' => b'r',
        b'\'' => b'\'',
        b'"' => b'"',
        b'\\' => b'\\',
        0 => b'0',
        1..=31 => {
            out.extend_from_slice(b"\\u{");
            if c >= 16 {
                out.push(b'1');
            }
            let d = c & 15;
            out.push(if d < 10 { b'0' + d } else { b'a' + d - 10 });
            out.push(b'}');
            return;
        }
        127 => {
            out.extend_from_slice(b"\\u{7f}");
            return;
        }
        _ => {
            out.push(c);
            return;
        }
    };
    out.push(b'\\');
    out.push(e);
}

/// Characters outside ASCII, with their text.
const WIDE: &[(char, &str)] = &[
    ('é', "é"),
    ('\u{80}', "\\u{80}"),
    ('\u{ad}', "\\u{ad}"),
    ('ß', "ß"),
    ('\u{301}', "\\u{301}"),
    ('\u{200b}', "\\u{200b}"),
    ('\u{2028}', "\\u{2028}"),
    ('⛰', "⛰"),
    ('\u{fe0f}', "\\u{fe0f}"),
    ('\u{e000}', "\\u{e000}"),
    ('日', "日"),
    ('\u{feff}', "\\u{feff}"),
    ('\u{fffd}', "\u{fffd}"),
    ('😀', "😀"),
    ('\u{e0100}', "\\u{e0100}"),
    ('\u{10ffff}', "\\u{10ffff}"),
];

fn decimal(mut v: u128, out: &mut Vec<u8>) {
    let mut d = Vec::new();
    loop {
        d.push(b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            break;
        }
    }
    d.reverse();
    out.extend_from_slice(&d);
}

fn signed(v: i128, out: &mut Vec<u8>) {
    if v < 0 {
        out.push(b'-');
    }
    decimal(v.unsigned_abs(), out);
}

/// Floats from a list.
fn float(v: f64) -> &'static [u8] {
    if v.is_nan() {
        b"NaN"
    } else if v == f64::NEG_INFINITY {
        b"-inf"
    } else if v == 1.5 {
        b"1.5"
    } else if v == -0.25 {
        b"-0.25"
    } else {
        unreachable!()
    }
}

fn label(h: &Hdr) -> Option<&'static str> {
    h.label.as_ref().map(|l| l.s)
}

/// The documented text of a value. `number`: inside a value tagged as a number.
fn text(n: &Node, number: bool, o: &mut Out) -> Result<(), ()> {
    let mut int = Vec::new();
    match n {
        Node::Null => o.put(ATOM, b"()"),
        Node::Bool(true) => o.put(ATOM, b"true"),
        Node::Bool(false) => o.put(ATOM, b"false"),
        Node::U8(v) => decimal(*v as u128, &mut int),
        Node::U16(v) => decimal(*v as u128, &mut int),
        Node::U32(v) => decimal(*v as u128, &mut int),
        Node::U64(v) => decimal(*v as u128, &mut int),
        Node::U128(v) => decimal(*v, &mut int),
        // digits only: printed without a division
        Node::I64(v) if *v >= 0 && *v < 10 => int.push(b'0' + *v as u8),
        Node::I8(v) => signed(*v as i128, &mut int),
        Node::I16(v) => signed(*v as i128, &mut int),
        Node::I32(v) => signed(*v as i128, &mut int),
        Node::I64(v) => signed(*v as i128, &mut int),
        Node::I128(v) => signed(*v, &mut int),
        Node::F32(v) => o.put(NUM, float(*v as f64)),
        Node::F64(v) => o.put(NUM, float(*v)),
        Node::Text(_, frags) => {
            if !number {
                o.put(TEXT, b"\"");
            }
            for (_, f) in frags {
                if number {
                    o.put(NUM, f.as_bytes());
                } else {
                    let mut e = Vec::new();
                    for c in f.chars() {
                        if (c as u32) < 128 {
                            escape(c as u8, &mut e);
                        } else {
                            let k = WIDE.iter().find(|(w, _)| *w == c);
                            match k {
                                Some((_, t)) => e.extend_from_slice(t.as_bytes()),
                                None => rt::assume(false),
                            }
                        }
                    }
                    o.put(TEXT, &e);
                }
            }
            if !number {
                o.put(TEXT, b"\"");
            }
        }
        Node::Bin(_, frags) => {
            o.put(PUNCT, b"[");
            let mut first = true;
            for (_, f) in frags {
                for b in *f {
                    if !first {
                        o.put(PUNCT, b",");
                        o.put(WS, b" ");
                    }
                    first = false;
                    let mut d = Vec::new();
                    decimal(*b as u128, &mut d);
                    o.put(NUM, &d);
                }
            }
            o.put(PUNCT, b"]");
        }
        Node::Tag(h) => match label(h) {
            Some(l) => o.put(IDENT, l.as_bytes()),
            None => o.put(ATOM, b"()"),
        },
        Node::Tagged(h, v) => {
            let number = number || h.tag == Some(sval::tags::NUMBER);
            match label(h) {
                Some(l) => {
                    o.put(IDENT, l.as_bytes());
                    o.put(PUNCT, b"(");
                    text(v, number, o)?;
                    o.put(PUNCT, b")");
                }
                None => text(v, number, o)?,
            }
        }
        Node::Enum(h, None) => match label(h) {
            Some(l) => o.put(IDENT, l.as_bytes()),
            None => o.put(ATOM, b"()"),
        },
        Node::Enum(_, Some(v)) => text(v, number, o)?,
        Node::Seq(_, vs) => list(None, b"[", b"]", vs.iter(), o)?,
        Node::Tuple(h, _, vs) => list(label(h), b"(", b")", vs.iter().map(|(_, _, v)| v), o)?,
        Node::Map(_, vs) => {
            o.put(PUNCT, b"{");
            for (i, (k, v)) in vs.iter().enumerate() {
                if i > 0 {
                    o.put(PUNCT, b",");
                }
                o.put(WS, b" ");
                text(k, false, o)?;
                o.put(PUNCT, b":");
                o.put(WS, b" ");
                text(v, false, o)?;
            }
            if !vs.is_empty() {
                o.put(WS, b" ");
            }
            o.put(PUNCT, b"}");
        }
        Node::Record(h, _, vs) => fields(label(h), vs.iter().map(|(_, l, v)| (l, v)), o)?,
        Node::RecordTuple(h, _, vs) => fields(label(h), vs.iter().map(|(_, l, _, v)| (l, v)), o)?,
        Node::Hint(_, v) | Node::ByValue(v) | Node::ByComputed(v) => text(v, number, o)?,
        Node::Broken => return Err(()),
    }
    o.put(NUM, &int);
    Ok(())
}

fn list<'a>(
    ty: Option<&str>,
    open: &[u8],
    close: &[u8],
    vs: impl Iterator<Item = &'a Node>,
    o: &mut Out,
) -> Result<(), ()> {
    if let Some(ty) = ty {
        o.put(IDENT, ty.as_bytes());
    }
    o.put(PUNCT, open);
    for (i, v) in vs.enumerate() {
        if i > 0 {
            o.put(PUNCT, b",");
            o.put(WS, b" ");
        }
        text(v, false, o)?;
    }
    o.put(PUNCT, close);
    Ok(())
}

fn fields<'a>(
    ty: Option<&str>,
    vs: impl Iterator<Item = (&'a Lab, &'a Node)>,
    o: &mut Out,
) -> Result<(), ()> {
    if let Some(ty) = ty {
        o.put(IDENT, ty.as_bytes());
        o.put(WS, b" ");
    }
    o.put(PUNCT, b"{");
    let mut any = false;
    for (l, v) in vs {
        if any {
            o.put(PUNCT, b",");
        }
        any = true;
        o.put(WS, b" ");
        o.put(IDENT, l.s.as_bytes());
        o.put(PUNCT, b":");
        o.put(WS, b" ");
        text(v, false, o)?;
    }
    if any {
        o.put(WS, b" ");
    }
    o.put(PUNCT, b"}");
    Ok(())
}

/// A writer of tokens that classifies every byte it is given.
#[derive(Default)]
struct Classes {
    class: u8,
    out: Out,
    loose: u32,
}

impl fmt::Write for Classes {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let c = self.class;
        if c == 0 {
            self.loose += 1;
        }
        self.out.put(c, s.as_bytes());
        Ok(())
    }
}

impl TokenWrite for Classes {
    fn write_token<T: fmt::Display>(&mut self, tag: &Tag, token: T) -> fmt::Result {
        use sval_fmt::tags;
        let class = if *tag == tags::NUMBER {
            NUM
        } else if *tag == tags::ATOM {
            ATOM
        } else if *tag == tags::IDENT {
            IDENT
        } else if *tag == tags::PUNCT {
            PUNCT
        } else if *tag == tags::WS {
            WS
        } else if *tag == tags::TEXT {
            TEXT
        } else {
            7
        };
        self.class = class;
        let r = self.write_fmt(format_args!("{}", token));
        self.class = 0;
        r
    }
}

/// The structural calls a writer of tokens gets, with what they say about first and empty.
#[derive(Default)]
struct Calls(Vec<u8>);

impl fmt::Write for Calls {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        Ok(())
    }
}

impl TokenWrite for Calls {
    fn write_seq_begin(&mut self) -> fmt::Result {
        Ok(self.0.push(1))
    }
    fn write_seq_value_begin(&mut self, first: bool) -> fmt::Result {
        Ok(self.0.push(2 + first as u8))
    }
    fn write_seq_end(&mut self, empty: bool) -> fmt::Result {
        Ok(self.0.push(4 + empty as u8))
    }
    fn write_tuple_begin(&mut self) -> fmt::Result {
        Ok(self.0.push(6))
    }
    fn write_tuple_value_begin(&mut self, first: bool) -> fmt::Result {
        Ok(self.0.push(7 + first as u8))
    }
    fn write_tuple_end(&mut self, empty: bool) -> fmt::Result {
        Ok(self.0.push(9 + empty as u8))
    }
    fn write_record_begin(&mut self) -> fmt::Result {
        Ok(self.0.push(11))
    }
    fn write_record_value_begin(&mut self, _: &str, first: bool) -> fmt::Result {
        Ok(self.0.push(12 + first as u8))
    }
    fn write_record_end(&mut self, empty: bool) -> fmt::Result {
        Ok(self.0.push(14 + empty as u8))
    }
    fn write_map_begin(&mut self) -> fmt::Result {
        Ok(self.0.push(16))
    }
    fn write_map_key_begin(&mut self, first: bool) -> fmt::Result {
        Ok(self.0.push(17 + first as u8))
    }
    fn write_map_value_begin(&mut self, _: bool) -> fmt::Result {
        Ok(self.0.push(19))
    }
    fn write_map_end(&mut self, empty: bool) -> fmt::Result {
        Ok(self.0.push(20 + empty as u8))
    }
}

fn calls(n: &Node, o: &mut Vec<u8>) {
    match n {
        Node::Tagged(h, v) => {
            if h.label.is_some() {
                o.push(6);
            }
            calls(v, o);
            if h.label.is_some() {
                o.push(9);
            }
        }
        Node::Enum(_, Some(v)) | Node::Hint(_, v) | Node::ByValue(v) | Node::ByComputed(v) => calls(v, o),
        Node::Seq(_, vs) => {
            o.push(1);
            for (i, v) in vs.iter().enumerate() {
                o.push(2 + (i == 0) as u8);
                calls(v, o);
            }
            o.push(4 + vs.is_empty() as u8);
        }
        Node::Bin(_, frags) => {
            o.push(1);
            let n = frags.iter().map(|(_, f)| f.len()).sum::<usize>();
            for i in 0..n {
                o.push(2 + (i == 0) as u8);
            }
            o.push(4 + (n == 0) as u8);
        }
        Node::Tuple(_, _, vs) => {
            o.push(6);
            for (i, (_, _, v)) in vs.iter().enumerate() {
                o.push(7 + (i == 0) as u8);
                calls(v, o);
            }
            o.push(9 + vs.is_empty() as u8);
        }
        Node::Record(_, _, vs) => {
            o.push(11);
            for (i, (_, _, v)) in vs.iter().enumerate() {
                o.push(12 + (i == 0) as u8);
                calls(v, o);
            }
            o.push(14 + vs.is_empty() as u8);
        }
        Node::RecordTuple(_, _, vs) => {
            o.push(11);
            for (i, (_, _, _, v)) in vs.iter().enumerate() {
                o.push(12 + (i == 0) as u8);
                calls(v, o);
            }
            o.push(14 + vs.is_empty() as u8);
        }
        Node::Map(_, vs) => {
            o.push(16);
            for (i, (k, v)) in vs.iter().enumerate() {
                o.push(17 + (i == 0) as u8);
                calls(k, o);
                o.push(19);
                calls(v, o);
            }
            o.push(20 + vs.is_empty() as u8);
        }
        _ => (),
    }
}

fn expect_tokens(n: &Node) {
    let mut want = Out::default();
    let _ = text(n, false, &mut want);
    let mut w = Classes::default();
    check!(sval_fmt::stream_to_token_write(&mut w, n).is_ok(), "a value was rejected by a token writer");
    check!(w.loose == 0, "text was written outside of any token");
    check!(rt::eq(&w.out.b, &want.b), "a token writer is given other text");
    check!(w.out.c == want.c, "a token is of the wrong kind");
    let mut c = Calls::default();
    check!(sval_fmt::stream_to_token_write(&mut c, n).is_ok(), "a value was rejected by a token writer");
    let mut want = Vec::new();
    calls(n, &mut want);
    check!(c.0 == want, "a token writer isn't told what is first or empty");
    rt::reach(1);
}

struct Into<'a>(&'a Node);
impl<'a> std::fmt::Display for Into<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        sval_fmt::stream_to_fmt(f, self.0)
    }
}

/// All ways of formatting give the documented text.
fn expect(n: &Node) {
    let mut want = Out::default();
    let ok = text(n, false, &mut want).is_ok();
    let mut s = String::new();
    let r = sval_fmt::stream_to_write(&mut s, n);
    check!(r.is_ok() == ok, "a value's error is lost, or a fine value was rejected");
    rt::obs(s.as_bytes());
    check!(rt::eq(s.as_bytes(), &want.b), "the text is not the one the stream describes");
    let f = {
        let mut f = String::new();
        check!(write!(f, "{}", sval_fmt::ToFmt::new(n)).is_ok(), "a value's error got out of its formatter");
        f
    };
    if ok {
        rt::reach(1);
        check!(rt::eq(f.as_bytes(), &want.b), "ToFmt's text differs");
        let mut d = String::new();
        check!(write!(d, "{:?}", sval_fmt::ToFmt::new_borrowed(n)).is_ok(), "Debug failed");
        check!(rt::eq(d.as_bytes(), &want.b), "ToFmt's Debug text differs");
        d.clear();
        check!(write!(d, "{}", Into(n)).is_ok(), "a value was rejected by a formatter");
        check!(rt::eq(d.as_bytes(), &want.b), "stream_to_fmt's text differs");
    } else {
        rt::reach(2);
        let mut d = String::new();
        check!(write!(d, "{}", Into(n)).is_err(), "stream_to_fmt swallowed an error");
        check!(f.len() >= want.b.len() && rt::eq(&f.as_bytes()[..want.b.len()], &want.b), "ToFmt's text before an error differs");
    }
}

fn structure(mut g: Gen) {
    let n = g.value();
    expect(&n);
}

const ALL: &[K] = &[
    K::Null, K::Bool, K::I64, K::Frags, K::BinFrags, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Seq, K::Map, K::Record,
    K::Tuple, K::RecordTuple, K::Hint, K::ByValue, K::ByComputed,
];

struct Flaky {
    accepted: String,
    fail_at: usize,
    calls: usize,
}

impl fmt::Write for Flaky {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if self.calls > self.fail_at {
            return Err(fmt::Error);
        }
        self.accepted.push_str(s);
        Ok(())
    }
}

fn small(k: usize) -> Node {
    let t = |n| Node::Text(None, vec![(false, rt::ascii(n))]);
    let l = || Some(Lab { s: rt::letters(1), is_static: false, tag: None });
    match k {
        0 => t(2),
        1 => Node::Seq(None, vec![Node::Null, t(1)]),
        2 => Node::Map(None, vec![(t(1), Node::Bool(rt::bool_()))]),
        3 => Node::Record(Hdr { label: l(), ..Hdr::default() }, None, vec![(None, l().unwrap(), Node::I64(rt::digit() as i64))]),
        4 => Node::Tuple(Hdr { label: l(), ..Hdr::default() }, None, vec![(None, sval::Index::new(0), Node::U8(7)), (None, sval::Index::new(1), Node::I128(-3))]),
        5 => Node::Bin(None, vec![(false, b"ab"), (true, b"c")]),
        6 => Node::Tagged(Hdr { label: l(), tag: Some(sval::tags::NUMBER), index: None }, Box::new(Node::Text(None, vec![(true, "1.5"), (false, "0")]))),
        _ => Node::Enum(Hdr { label: l(), ..Hdr::default() }, if rt::flag() { None } else { Some(Box::new(Node::Tag(Hdr { label: l(), ..Hdr::default() }))) }),
    }
}

/// Writes its pieces separately, and may fail.
struct Pieces {
    a: &'static str,
    b: &'static str,
    fails: bool,
}

impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.a)?;
        if self.fails {
            return Err(fmt::Error);
        }
        f.write_str(self.b)
    }
}

impl fmt::Debug for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.b)?;
        f.write_char('-')?;
        if self.fails {
            return Err(fmt::Error);
        }
        f.write_str(self.a)
    }
}

harnesses! {
    /// trees of 4 nodes
    fn h_fmt_struct() { structure(Gen { nodes: 4, hdr: H::Label, ..Gen::default() }) }
    /// enums in enums, with empty and non-empty containers as variants
    fn h_fmt_enum() {
        structure(Gen { nodes: 5, kinds: &[K::I64, K::Tag, K::Tagged, K::Enum, K::Record, K::Tuple], hdr: H::Label, max_children: 1, ..Gen::default() })
    }
    /// wider containers
    fn h_fmt_nest() {
        structure(Gen { nodes: 5, kinds: &[K::I64, K::Seq, K::Map, K::Record, K::Tuple], keys: &[K::Text, K::Seq], hdr: H::None, max_children: 3, ..Gen::default() })
    }
    /// every kind of value
    fn h_fmt_all() { structure(Gen { nodes: 3, kinds: ALL, small_bytes: true, hdr: H::Label, ..Gen::default() }) }
    /// every combination of headers
    fn h_fmt_hdr() {
        structure(Gen { nodes: 2, kinds: ALL, small_bytes: true, hdr: H::All, sizes: true, label_tags: true, value_tags: true, max_children: 1, ..Gen::default() })
    }
    /// every method that streams a value, in every place a value can be
    fn h_fmt_leaf() { expect(&leaf_within()); }
    fn h_fmt_deep_leaf() { expect(&crate::shapes::deep_leaf(10)); }
    fn h_fmt_big() { expect(&crate::shapes::big_upto(rt::choice(crate::shapes::BIG), 1100, 300, 260, false, true)); }
    fn h_fmt_huge() { expect(&crate::shapes::huge(66_000, 5_000)); }
    fn h_fmt_full() { expect(&crate::shapes::full_within()); }
    fn h_fmt_full2() { expect(&crate::shapes::full_twice()); }
    fn h_fmt_leaf2() { expect(&two_leaves()); }
    fn h_fmt_struct5() { structure(Gen { nodes: 5, hdr: H::Label, kinds: &[K::I64, K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record, K::Tuple], ..Gen::default() }) }
    /// chains of containers
    fn h_fmt_deep() {
        let n = chain([6, 17, 24][rt::choice(3)]);
        expect(&n);
    }
    /// wide containers
    fn h_fmt_wide() {
        let k = rt::choice(5);
        let n = wide([17, 40][rt::choice(2)], k);
        expect(&n);
    }
    /// a value that fails
    fn h_fmt_broken() {
        let mut g = Gen { nodes: 2, hdr: H::Label, max_children: 1, ..Gen::default() };
        let n = g.value();
        let l = rt::letters(1);
        let lab = Lab { s: l, is_static: true, tag: None };
        expect(&match rt::choice(4) {
            0 => Node::Seq(None, vec![n, Node::Broken]),
            1 => Node::Map(None, vec![(n, Node::Broken)]),
            2 => Node::Tagged(Hdr { label: Some(lab), ..Hdr::default() }, Box::new(Node::Broken)),
            _ => Node::Record(Hdr::default(), None, vec![(None, lab, Node::Broken)]),
        });
    }
    /// tokens given to token-aware writers
    fn h_fmt_tokens() {
        let n = Gen { nodes: 3, hdr: H::Label, ..Gen::default() }.value();
        expect_tokens(&n);
    }
    fn h_fmt_tokens_all() {
        let n = Gen { nodes: 2, kinds: ALL, small_bytes: true, hdr: H::Label, ..Gen::default() }.value();
        let n = match rt::choice(4) {
            0 => n,
            1 => Node::Tagged(Hdr { tag: Some(sval::tags::NUMBER), ..Hdr::default() }, Box::new(Node::Text(None, vec![(false, "1"), (true, "2")]))),
            2 => Node::Seq(None, vec![Node::U8(1), Node::I128(-4), Node::F64(f64::NAN), n]),
            _ => Node::Map(None, vec![(Node::Bool(rt::bool_()), n)]),
        };
        if let Node::Seq(_, vs) = &n {
            if vs.len() == 4 {
                let mut w = Classes::default();
                check!(sval_fmt::stream_to_token_write(&mut w, &n).is_ok(), "a value was rejected by a token writer");
                check!(w.out.b.starts_with(b"[1, -4, NaN, ") && w.out.c.starts_with(&[4, 1, 4, 5, 1, 1, 4, 5, 1, 1, 1, 4, 5]), "numbers in a sequence");
                rt::reach(1);
                return;
            }
        }
        expect_tokens(&n);
    }

    /// text: any ASCII, fragmented
    fn h_fmt_text() {
        let a = rt::ascii(rt::choice(3));
        let b = rt::ascii(rt::choice(2));
        expect(&Node::Text(None, vec![(rt::flag(), a), (rt::flag(), b)]));
    }
    /// characters outside ASCII next to any ASCII character
    fn h_fmt_wide_chars() {
        let (c, _) = WIDE[rt::choice(WIDE.len())];
        let mut s = String::new();
        let at = rt::choice(3);
        if at > 0 {
            s.push_str(rt::ascii(1));
        }
        s.push(c);
        if at < 2 {
            s.push_str(rt::ascii(1));
        }
        let s: &'static str = Box::leak(s.into_boxed_str());
        expect(&Node::Text(None, vec![(rt::flag(), s)]));
    }
    /// binary is a sequence of its bytes
    fn h_fmt_bin() {
        let b = rt::leak_bytes(2);
        let cut = rt::choice(3);
        expect(&Node::Bin(None, vec![(rt::flag(), &b[..cut]), (rt::flag(), &b[cut..])]));
    }
    /// text as map keys, in sequences, in tagged values
    fn h_fmt_text_in() {
        let t = || Node::Text(None, vec![(rt::flag(), rt::ascii(1))]);
        let l = Lab { s: rt::letters(2), is_static: false, tag: None };
        expect(&match rt::choice(4) {
            0 => Node::Map(None, vec![(t(), t())]),
            1 => Node::Seq(None, vec![t(), t()]),
            2 => Node::Tagged(Hdr { label: Some(l), ..Hdr::default() }, Box::new(t())),
            _ => Node::Record(Hdr { label: Some(l.clone()), ..Hdr::default() }, None, vec![(None, l, t())]),
        });
    }
    /// longer text
    fn h_fmt_long() { expect(&Node::Text(None, vec![(false, long_text(12))])); }
    fn h_fmt_longer() {
        let n = [40, 70, 140][rt::choice(3)];
        expect(&Node::Text(None, vec![(true, one_byte_text(n))]));
    }
    /// numbers as text, in every context: unquoted there, and only there
    fn h_fmt_number() {
        let s = rt::ascii(2);
        let l = rt::letters(1);
        let num = |label: bool| Node::Tagged(
            Hdr { tag: Some(sval::tags::NUMBER), label: if label { Some(Lab { s: l, is_static: false, tag: None }) } else { None }, index: None },
            Box::new(Node::Text(None, vec![(true, &s[..1]), (false, &s[1..])])));
        let t = || Node::Text(None, vec![(false, rt::ascii(1))]);
        expect(&match rt::choice(6) {
            0 => num(rt::flag()),
            1 => Node::Seq(None, vec![num(false), t()]),
            2 => Node::Map(None, vec![(num(false), t())]),
            3 => Node::Map(None, vec![(t(), num(true)), (t(), t())]),
            4 => Node::Record(Hdr::default(), None, vec![(None, Lab { s: l, is_static: true, tag: None }, num(false)), (None, Lab { s: l, is_static: true, tag: None }, t())]),
            _ => Node::Enum(Hdr::default(), Some(Box::new(num(rt::flag())))),
        });
    }
    /// integers
    fn h_fmt_int() {
        let b = rt::u8_();
        expect(&match rt::choice(14) {
            0 => Node::U8(b),
            1 => Node::I8(b as i8),
            2 => Node::U16(u16::MAX - b as u16),
            3 => Node::I16(i16::MIN + b as i16),
            4 => Node::U32(u32::MAX - b as u32),
            5 => Node::I32(i32::MIN + b as i32),
            6 => Node::U64(u64::MAX - b as u64),
            7 => Node::I64(i64::MIN + b as i64),
            8 => Node::U128(u128::MAX - b as u128),
            9 => Node::I128(i128::MIN + b as i128),
            10 => Node::I128(i64::MIN as i128 - b as i128),
            11 => Node::U128(u64::MAX as u128 - 100 + b as u128),
            12 => Node::I64(b as i64 - 128),
            _ => Node::I128(b as i128 - 128),
        });
    }
    /// floats: not-a-number and infinities; edge cases re-parse to themselves
    /// finite floats of every exponent
    fn h_fmt_float_exp() {
        rt::reach(1);
        if rt::flag() {
            let v = crate::shapes::some_f32();
            check!(sval_fmt::stream_to_string(v).parse::<f32>().ok().map(f32::to_bits) == Some(v.to_bits()), "a float's text isn't the float");
        } else {
            let v = crate::shapes::some_f64();
            check!(sval_fmt::stream_to_string(v).parse::<f64>().ok().map(f64::to_bits) == Some(v.to_bits()), "a float's text isn't the float");
        }
    }
    fn h_fmt_float() {
        const F: [f64; 12] = [0.0, -0.0, 1.0, -1.5, 0.1, 1e15, 1e16, 1.7976931348623157e308, 5e-324, 123456789.125, 1e-7, 4503599627370496.5];
        match rt::choice(3) {
            0 => {
                let v = F[rt::choice(12)];
                let s = sval_fmt::stream_to_string(v);
                check!(s.parse::<f64>().ok().map(f64::to_bits) == Some(v.to_bits()), "a float's text isn't the float");
                let s = format!("{}", sval_fmt::ToFmt::new(v));
                check!(s.parse::<f64>().ok().map(f64::to_bits) == Some(v.to_bits()), "a float's text isn't the float");
                let v = v as f32;
                let s = sval_fmt::stream_to_string(v);
                check!(s.parse::<f32>().ok().map(f32::to_bits) == Some(v.to_bits()), "a float's text isn't the float");
            }
            1 => {
                let b = rt::u64_();
                rt::assume(b >> 52 & 0x7ff == 0x7ff);
                let want = if b << 12 != 0 { "NaN" } else if b >> 63 == 1 { "-inf" } else { "inf" };
                check!(sval_fmt::stream_to_string(f64::from_bits(b)) == want, "a non-finite float");
                check!(format!("{}", sval_fmt::ToFmt::new(f64::from_bits(b))) == want, "a non-finite float");
            }
            _ => {
                let b = rt::u32_();
                rt::assume(b >> 23 & 0xff == 0xff);
                let want = if b << 9 != 0 { "NaN" } else if b >> 31 == 1 { "-inf" } else { "inf" };
                check!(sval_fmt::stream_to_string(f32::from_bits(b)) == want, "a non-finite float");
            }
        }
        rt::reach(1);
    }

    /// writers that fail, at any call
    fn h_fmt_flaky() {
        let n = small(rt::choice(8));
        let mut all = Flaky { accepted: String::new(), fail_at: usize::MAX, calls: 0 };
        check!(sval_fmt::stream_to_write(&mut all, &n).is_ok(), "rejected");
        let at = rt::choice(14);
        let mut w = Flaky { accepted: String::new(), fail_at: at, calls: 0 };
        let r = sval_fmt::stream_to_write(&mut w, &n);
        check!(w.calls <= at + 1, "written to after an error");
        if at >= all.calls {
            rt::reach(1);
            check!(r.is_ok() && rt::eq(w.accepted.as_bytes(), all.accepted.as_bytes()), "a writer that never fails got something else");
        } else {
            rt::reach(2);
            check!(r.is_err(), "a failing writer reported success");
            let k = w.accepted.len();
            check!(k <= all.accepted.len() && rt::eq(w.accepted.as_bytes(), &all.accepted.as_bytes()[..k]), "not a prefix of the text");
        }
        // through a formatter
        let mut all = Flaky { accepted: String::new(), fail_at: usize::MAX, calls: 0 };
        check!(write!(all, "{}", sval_fmt::ToFmt::new(&n)).is_ok(), "rejected");
        let mut w = Flaky { accepted: String::new(), fail_at: at, calls: 0 };
        let r = write!(w, "{}", sval_fmt::ToFmt::new(&n));
        check!(r.is_ok() == (at >= all.calls), "a formatter's failure was lost");
        let k = w.accepted.len();
        check!(k <= all.accepted.len() && rt::eq(w.accepted.as_bytes(), &all.accepted.as_bytes()[..k]), "not a prefix of the text");
    }

    fn h_fmt_flaky_full() {
        let n = crate::shapes::faulty();
        let mut all = Flaky { accepted: String::new(), fail_at: usize::MAX, calls: 0 };
        check!(sval_fmt::stream_to_write(&mut all, &n).is_ok(), "rejected");
        let at = rt::choice(40);
        rt::assume(at < all.calls);
        let mut w = Flaky { accepted: String::new(), fail_at: at, calls: 0 };
        let r = sval_fmt::stream_to_write(&mut w, &n);
        rt::reach(1);
        check!(w.calls <= at + 1, "written to after an error");
        check!(r.is_err(), "a failing writer reported success");
        let k = w.accepted.len();
        check!(k <= all.accepted.len() && rt::eq(w.accepted.as_bytes(), &all.accepted.as_bytes()[..k]), "not a prefix of the text");
    }
    fn h_fmt_flaky_big() {
        let n = crate::shapes::faulty_big(260);
        let mut all = Flaky { accepted: String::new(), fail_at: usize::MAX, calls: 0 };
        check!(sval_fmt::stream_to_write(&mut all, &n).is_ok(), "rejected");
        let at = crate::shapes::fails_far(all.calls);
        let mut w = Flaky { accepted: String::new(), fail_at: at, calls: 0 };
        let r = sval_fmt::stream_to_write(&mut w, &n);
        rt::reach(1);
        check!(w.calls <= at + 1, "written to after an error");
        check!(r.is_err(), "a failing writer reported success");
        let k = w.accepted.len();
        check!(k <= all.accepted.len() && rt::eq(w.accepted.as_bytes(), &all.accepted.as_bytes()[..k]), "not a prefix of the text");
    }
    fn h_fmt_broken_full() {
        let n = crate::shapes::breaking();
        let mut all = Flaky { accepted: String::new(), fail_at: usize::MAX, calls: 0 };
        check!(sval_fmt::stream_to_write(&mut all, &n).is_err(), "a failing value was formatted without an error");
        rt::reach(1);
    }

    /// formattable things as values
    fn h_fmt_value() {
        use crate::rec::{record, MERGED};
        let p = Pieces { a: rt::ascii(rt::choice(3)), b: rt::ascii(rt::choice(2)), fails: rt::flag() };
        let debug = rt::flag();
        let whole = if debug { format!("{}-{}", p.b, p.a) } else { format!("{}{}", p.a, p.b) };
        let want = record(MERGED, whole.as_str());
        let (r, ok) = match (debug, rt::choice(3)) {
            (true, 0) => run(&sval_fmt::DebugToValue::new(&p)),
            (true, 1) => run(sval_fmt::DebugToValue::new_borrowed(&p)),
            (true, _) => run(&ViaDebug(&p)),
            (false, 0) => run(&sval_fmt::DisplayToValue::new(&p)),
            (false, 1) => run(sval_fmt::DisplayToValue::new_borrowed(&p)),
            (false, _) => run(&ViaDisplay(&p)),
        };
        check!(ok == !p.fails, "a formatting error was lost or made up");
        if ok {
            rt::reach(1);
            check!(r.complete(), "not one complete value");
            check!(rt::eq(&r.log, &want.0.log), "the value's text is not the formatted text");
        } else {
            rt::reach(2);
        }
    }
    /// into a stream that fails
    fn h_fmt_value_flaky() {
        use crate::rec::{Rec, MERGED};
        let p = Pieces { a: rt::ascii(1), b: rt::ascii(1), fails: false };
        let at = rt::choice(6) as u32;
        let mut all = Rec::new(MERGED);
        let mut w = Rec::failing_at(MERGED, at);
        let (a, r) = if rt::flag() {
            (sval_fmt::stream_debug(&mut all, &p), sval_fmt::stream_debug(&mut w, &p))
        } else {
            (sval_fmt::stream_display(&mut all, &p), sval_fmt::stream_display(&mut w, &p))
        };
        check!(a.is_ok() && all.complete(), "rejected");
        check!(r.is_err() == (at < all.tokens), "a stream's error was lost or made up");
        check!(w.after_fail == 0, "streamed to after an error");
        rt::reach(1);
    }
}

struct ViaDebug<'a>(&'a Pieces);
struct ViaDisplay<'a>(&'a Pieces);
impl<'a> Value for ViaDebug<'a> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        sval_fmt::stream_debug(s, self.0)
    }
}
impl<'a> Value for ViaDisplay<'a> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        sval_fmt::stream_display(s, self.0)
    }
}

fn run<V: Value + ?Sized>(v: &V) -> (crate::rec::Rec, bool) {
    let mut r = crate::rec::Rec::new(crate::rec::MERGED);
    let ok = v.stream(&mut r).is_ok();
    (r, ok)
}
