//! JSON output.
use crate::jsonref::{doc, doc_full, is_doc, parse, write_str, J};
use crate::node::{Gen, Hdr, Lab, Node, H, K};
use crate::shapes::{chain, leaf_within, long_text, one_byte_text, spread, two_leaves};
use crate::{check, harnesses, rt};
use sval::{Stream, Tag, Value};
use std::fmt;
use std::io;

fn expect(n: &Node) {
    let want = doc(n);
    let got = sval_json::stream_to_string(n);
    match (got, want) {
        (Ok(out), Ok(j)) => {
            rt::reach(1);
            rt::obs(out.as_bytes());
            check!(is_doc(out.as_bytes(), &j), "the JSON is not the document the stream describes");
        }
        (Err(_), Err(())) => rt::reach(2),
        (Ok(_), Err(())) => rt::fail("a value JSON can't represent was accepted"),
        (Err(_), Ok(_)) => rt::fail("a representable value was rejected"),
    }
}

fn structure(mut g: Gen) {
    let n = g.value();
    expect(&n);
}

/// Where a piece of text may appear in a document.
fn place(frags: Vec<(bool, &'static str)>) -> Node {
    let text = |frags: &Vec<(bool, &'static str)>| Node::Text(None, frags.clone());
    let whole: String = frags.iter().map(|(_, f)| *f).collect();
    let whole: &'static str = Box::leak(whole.into_boxed_str());
    let lab = |s| Lab { s, is_static: rt::flag(), tag: None };
    match rt::choice(6) {
        0 => text(&frags),
        1 => Node::Map(None, vec![(text(&frags), Node::Null)]),
        2 => Node::Seq(None, vec![text(&frags), text(&frags)]),
        3 => Node::Record(Hdr::default(), None, vec![(None, lab(whole), text(&frags))]),
        4 => Node::Tag(Hdr { label: Some(lab(whole)), ..Hdr::default() }),
        _ => Node::Enum(
            Hdr::default(),
            Some(Box::new(Node::Tagged(
                Hdr { label: Some(lab(whole)), ..Hdr::default() },
                Box::new(Node::Null),
            ))),
        ),
    }
}

fn string(n: usize) {
    let s = rt::utf8(n);
    let out = sval_json::stream_to_string(s);
    let Ok(out) = out else { rt::fail("a string was rejected") };
    rt::reach(1);
    rt::obs(out.as_bytes());
    check!(is_doc(out.as_bytes(), &J::Str(s.as_bytes().to_vec())), "the JSON string doesn't decode to the text");
}

// ---- numbers ----

/// A number's text taken apart: negative, integral digits, fraction, exponent
struct Parts<'a> {
    neg: bool,
    int: &'a [u8],
    frac: &'a [u8],
    exp: Option<(bool, &'a [u8])>,
}

fn digits(b: &[u8], i: &mut usize) -> usize {
    let s = *i;
    while *i < b.len() && b[*i].wrapping_sub(b'0') < 10 {
        *i += 1;
    }
    *i - s
}

/// The documented grammar of number text.
fn number_parts(b: &[u8], json: bool) -> Option<Parts<'_>> {
    let mut i = 0;
    let mut neg = false;
    if i < b.len() && (b[i] == b'-' || (!json && b[i] == b'+')) {
        neg = b[i] == b'-';
        i += 1;
    }
    let s = i;
    if digits(b, &mut i) == 0 {
        return None;
    }
    let int = &b[s..i];
    if json && int.len() > 1 && int[0] == b'0' {
        return None;
    }
    let mut frac: &[u8] = &[];
    if i < b.len() && b[i] == b'.' {
        i += 1;
        let s = i;
        if digits(b, &mut i) == 0 {
            return None;
        }
        frac = &b[s..i];
    }
    let mut exp = None;
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        let mut en = false;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            en = b[i] == b'-';
            i += 1;
        }
        let s = i;
        if digits(b, &mut i) == 0 {
            return None;
        }
        exp = Some((en, &b[s..i]));
    }
    if i == b.len() {
        Some(Parts { neg, int, frac, exp })
    } else {
        None
    }
}

fn strip(mut d: &[u8]) -> &[u8] {
    while d.len() > 1 && d[0] == b'0' {
        d = &d[1..];
    }
    d
}

fn same_number(a: &Parts, b: &Parts) -> bool {
    let zero = strip(a.int) == b"0" && a.frac.iter().all(|d| *d == b'0');
    (zero || a.neg == b.neg)
        && strip(a.int) == strip(b.int)
        && a.frac == b.frac
        && match (a.exp, b.exp) {
            (None, None) => true,
            (Some((an, ad)), Some((bn, bd))) => strip(ad) == strip(bd) && (an == bn || strip(ad) == b"0"),
            _ => false,
        }
}

fn number_text(n: usize) {
    let b = rt::leak_bytes(n);
    let Some(want) = number_parts(b, false) else {
        rt::assume(false);
        return;
    };
    let s = unsafe { std::str::from_utf8_unchecked(b) };
    // any split into up to three fragments
    let i = rt::choice(n + 1);
    let j = i + rt::choice(n + 1 - i);
    let mut frags = vec![(false, &s[..i])];
    if j > i {
        frags.push((true, &s[i..j]));
    }
    if j < n {
        frags.push((false, &s[j..]));
    }
    number_frags(b, &want, frags)
}

/// Long numbers. `lean`: the same kind of digit and place for the arbitrary one in all of its parts.
fn number_long(lean: bool) {
    let (zeros, at) = (rt::flag(), rt::choice(3));
    let mut v: Vec<u8> = [&b""[..], b"-", b"+"][rt::choice(3)].to_vec();
    let part = |v: &mut Vec<u8>, n: usize| {
        let s = v.len();
        v.resize(s + n, if if lean { zeros } else { rt::flag() } { b'0' } else { b'7' });
        v[s + [0, n / 2, n - 1][if lean { at } else { rt::choice(3) }]] = b'0' + rt::digit() % 10;
    };
    part(&mut v, [1, 20, 70][rt::choice(3)]);
    if rt::flag() {
        v.push(b'.');
        part(&mut v, [1, 40][rt::choice(2)]);
    }
    if rt::flag() {
        v.extend_from_slice([&b"e"[..], b"E-", b"e+"][rt::choice(3)]);
        part(&mut v, [1, 12][rt::choice(2)]);
    }
    let n = v.len();
    let v: &'static [u8] = Box::leak(v.into_boxed_slice());
    let cuts = match rt::choice(3) {
        0 => vec![0, n],
        1 => vec![0, n / 2, n],
        _ => vec![0, 1, (n / 2).max(1), (n - 1).max(1), n],
    };
    let Some(want) = number_parts(v, false) else { rt::fail("harness") };
    number_frags(v, &want, cuts.windows(2).enumerate().map(|(i, w)| (if lean { i % 2 == 0 } else { rt::flag() }, unsafe { std::str::from_utf8_unchecked(&v[w[0]..w[1]]) })).collect())
}

fn number_frags(_: &[u8], want: &Parts, frags: Vec<(bool, &'static str)>) {
    let num = Node::Tagged(
        Hdr { tag: Some(sval::tags::NUMBER), ..Hdr::default() },
        Box::new(Node::Text(None, frags)),
    );
    let out = sval_json::stream_to_string(&num);
    let Ok(out) = out else { rt::fail("number text was rejected") };
    rt::reach(1);
    rt::obs(out.as_bytes());
    let Some(got) = number_parts(out.as_bytes(), true) else { rt::fail("number text isn't written as a JSON number") };
    check!(same_number(want, &got), "number text is written as another number");
}

fn wide(base: u128, neg: bool) {
    let d = rt::u8_() as u128;
    let v = base.wrapping_add(d);
    let mut n: Vec<Node> = Vec::new();
    if neg {
        let v = v as i128;
        n.push(Node::I128(v));
        if v >= i64::MIN as i128 && v <= i64::MAX as i128 {
            n.push(Node::I64(v as i64));
        }
        if v >= i32::MIN as i128 && v <= i32::MAX as i128 {
            n.push(Node::I32(v as i32));
        }
    } else {
        n.push(Node::U128(v));
        if v <= u64::MAX as u128 {
            n.push(Node::U64(v as u64));
        }
        if v <= u32::MAX as u128 {
            n.push(Node::U32(v as u32));
        }
    }
    rt::reach(1);
    for n in &n {
        expect(n);
    }
}

// ---- writers ----

/// An `io::Write` whose every call is decided by the schedule.
struct FlakyIo {
    accepted: Vec<u8>,
    faults: u32,
    interrupts: u32,
    failed: bool,
    after: bool,
}

impl io::Write for FlakyIo {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed {
            self.after = true;
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.faults == 0 {
            self.accepted.extend_from_slice(b);
            return Ok(b.len());
        }
        match rt::choice(5) {
            0 => {
                self.accepted.extend_from_slice(b);
                Ok(b.len())
            }
            1 => {
                let n = 1 + rt::choice(if b.len() > 4 { 4 } else { b.len() });
                self.faults -= 1;
                self.accepted.extend_from_slice(&b[..n]);
                Ok(n)
            }
            2 => {
                self.faults -= 1;
                self.interrupts += 1;
                Err(io::Error::from(io::ErrorKind::Interrupted))
            }
            3 => {
                self.failed = true;
                Ok(0)
            }
            _ => {
                self.failed = true;
                Err(io::Error::from(io::ErrorKind::BrokenPipe))
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct FlakyFmt {
    accepted: String,
    fail_at: usize,
    calls: usize,
    after: bool,
}

impl fmt::Write for FlakyFmt {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.calls > self.fail_at {
            self.after = true;
        }
        self.calls += 1;
        if self.calls > self.fail_at {
            return Err(fmt::Error);
        }
        self.accepted.push_str(s);
        Ok(())
    }
}

fn small(k: usize) -> Node {
    let t = |n| Node::Text(None, vec![(false, rt::ascii(n))]);
    match k {
        0 => t(2),
        1 => Node::Seq(None, vec![Node::Null, t(1)]),
        2 => Node::Map(None, vec![(t(1), Node::Bool(rt::bool_()))]),
        3 => Node::Record(
            Hdr::default(),
            None,
            vec![(None, Lab { s: rt::letters(5), is_static: true, tag: None }, Node::I64(rt::digit() as i64))],
        ),
        _ => Node::Tagged(
            Hdr { tag: Some(sval::tags::NUMBER), ..Hdr::default() },
            Box::new(Node::Text(None, vec![(false, "-00"), (true, "7.25"), (false, "e1")])),
        ),
    }
}

struct Embed<'a>(&'a sval_json::JsonStr, usize, &'a str);

impl<'a> Value for Embed<'a> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        match self.1 {
            0 => s.value_computed(self.0),
            1 => {
                s.seq_begin(None)?;
                s.seq_value_begin()?;
                s.value(self.0)?;
                s.seq_value_end()?;
                s.seq_value_begin()?;
                s.value(self.2)?;
                s.seq_value_end()?;
                s.seq_end()
            }
            2 => {
                s.map_begin(None)?;
                s.map_key_begin()?;
                s.value(self.2)?;
                s.map_key_end()?;
                s.map_value_begin()?;
                s.value(self.0)?;
                s.map_value_end()?;
                s.map_key_begin()?;
                s.value(self.2)?;
                s.map_key_end()?;
                s.map_value_begin()?;
                s.value(self.2)?;
                s.map_value_end()?;
                s.map_end()
            }
            _ => {
                let l = sval::Label::new_computed(self.2);
                s.record_begin(None, None, None, None)?;
                s.record_value_begin(None, &l)?;
                s.value(self.0)?;
                s.record_value_end(None, &l)?;
                s.record_value_begin(None, &l)?;
                s.value(self.2)?;
                s.record_value_end(None, &l)?;
                s.record_end(None, None, None)
            }
        }
    }
}

const ENUMS: &[K] = &[K::Text, K::Tag, K::Tagged, K::Enum, K::Record, K::Tuple];
const KEYS: &[K] = &[K::Null, K::Bool, K::I64, K::Text, K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record, K::Tuple];
const NEST: &[K] = &[K::I64, K::Seq, K::Map, K::Record];
const REST: &[K] = &[
    K::Null, K::Bool, K::I64, K::Frags, K::Bin, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Seq, K::Map, K::Record, K::Tuple,
    K::RecordTuple, K::Hint, K::ByValue, K::ByComputed,
];

harnesses! {
    /// every shape of up to 4 nodes
    fn h_json_struct() {
        structure(Gen { nodes: 4, ..Gen::default() })
    }
    /// enums in enums in enums
    fn h_json_enum() {
        structure(Gen { nodes: 5, kinds: ENUMS, hdr: H::Label, max_children: 1, ..Gen::default() })
    }
    /// deep and wide containers
    fn h_json_nest() {
        structure(Gen { nodes: 6, kinds: NEST, keys: &[K::Text], hdr: H::None, max_children: 3, ..Gen::default() })
    }
    /// every kind of value, all headers, hints, fragments
    fn h_json_rest() {
        structure(Gen { nodes: 3, kinds: REST, hdr: H::Label, max_children: 2, ..Gen::default() })
    }
    /// two nodes, every combination of headers and size hints
    fn h_json_hdr() {
        structure(Gen { nodes: 2, kinds: REST, hdr: H::All, sizes: true, label_tags: true, value_tags: true, max_children: 1, ..Gen::default() })
    }
    /// chains of containers to some depth
    fn h_json_deep() {
        let d = [6, 9, 17, 24][rt::choice(4)];
        let n = chain(d);
        expect(&n);
    }
    /// variants and tags identified by an index: anything in and beyond the range of i64
    fn h_json_index() {
        let i = match rt::choice(5) {
            0 => sval::Index::new_isize(rt::i8_() as isize),
            1 => sval::Index::new_i64(i64::MIN + rt::digit() as i64),
            2 => sval::Index::new_i64(i64::MAX - rt::digit() as i64),
            3 => sval::Index::new_u64(i64::MAX as u64 + 1 + rt::digit() as u64),
            _ => sval::Index::new(usize::MAX - rt::digit() as usize),
        };
        let x = || Node::I64(rt::digit() as i64);
        let h = Hdr { tag: None, label: None, index: Some(i.clone()) };
        let l = rt::letters(1);
        let lab = || Lab { s: l, is_static: false, tag: None };
        let v = match rt::choice(7) {
            0 => Node::Tag(h),
            1 => Node::Tagged(h, Box::new(x())),
            2 => Node::Record(h, None, vec![(None, lab(), x())]),
            3 => Node::Tuple(h, None, vec![(None, sval::Index::new(0), x())]),
            4 => Node::RecordTuple(h, None, vec![(None, lab(), sval::Index::new(0), x())]),
            5 => Node::Enum(h, None),
            _ => Node::Enum(h, Some(Box::new(Node::Tagged(Hdr { label: Some(lab()), ..Hdr::default() }, Box::new(x()))))),
        };
        let v = if rt::flag() { Node::Enum(Hdr::default(), Some(Box::new(v))) } else { v };
        let n = Node::Seq(None, vec![v, Node::Null]);
        let Ok(want) = doc(&n) else { rt::fail("harness") };
        let Ok(out) = sval_json::stream_to_string(&n) else { rt::fail("a representable value was rejected") };
        rt::reach(1);
        rt::obs(out.as_bytes());
        if i.to_i64().is_some() {
            check!(is_doc(out.as_bytes(), &want), "the JSON is not the document the stream describes");
        } else {
            // such an index may be written or left out
            let full = doc_full(&n);
            check!(is_doc(out.as_bytes(), &want) || is_doc(out.as_bytes(), &full), "the JSON is not the document the stream describes");
        }
    }
    /// every method that streams a value, in every place a value can be
    fn h_json_leaf() {
        expect(&leaf_within());
    }
    fn h_json_deep_leaf() {
        expect(&crate::shapes::deep_leaf(10));
    }
    fn h_json_big() {
        let k = [3, 4, 5, 6][rt::choice(4)];
        expect(&crate::shapes::big_upto(k, 1100, 300, 260, false, true));
    }
    fn h_json_huge() { expect(&crate::shapes::huge(66_000, 20_000)); }
    fn h_json_big_text() {
        let k = [0, 2][rt::choice(2)];
        expect(&crate::shapes::big_upto(k, 530, 300, 260, false, true));
    }
    /// every pair of neighbours
    fn h_json_full() {
        expect(&crate::shapes::full_within());
    }
    fn h_json_full2() {
        expect(&crate::shapes::full_twice());
    }
    fn h_json_leaf2() {
        expect(&two_leaves());
    }
    fn h_json_struct5() {
        structure(Gen { nodes: 5, hdr: H::Label, max_children: 2,
            kinds: &[K::I64, K::Text, K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record, K::Tuple], ..Gen::default() })
    }
    fn h_json_nest7() {
        structure(Gen { nodes: 7, kinds: NEST, keys: &[K::Text], hdr: H::None, max_children: 2, ..Gen::default() })
    }

    /// keys of maps: any scalar, any wrapper, any text
    fn h_json_key() {
        let mut g = Gen { nodes: 3, kinds: KEYS, hdr: H::LabelIndex, plain: false, max_children: 1, ..Gen::default() };
        g.plain = true;
        let k = g.value();
        let mut g = Gen { nodes: 2, kinds: &[K::I64, K::Text, K::Tagged, K::Record, K::Enum, K::Tag], hdr: H::Label, max_children: 0, ..Gen::default() };
        let v = g.value();
        let mut m = vec![(k, v)];
        if rt::flag() {
            m.push((Node::I64(7), Node::Null));
        }
        expect(&Node::Map(None, m));
    }
    /// integer and text keys in full
    fn h_json_key_full() {
        let k = match rt::choice(4) {
            0 => Node::I8(rt::i8_()),
            1 => Node::U8(rt::u8_()),
            2 => Node::Text(None, vec![(false, rt::ascii(2)), (true, rt::ascii(1))]),
            _ => Node::Tag(Hdr { index: Some(sval::Index::new_isize(rt::i8_() as isize)), ..Hdr::default() }),
        };
        expect(&Node::Map(Some(1), vec![(k, Node::Text(None, vec![(false, rt::ascii(1))]))]));
    }

    /// any UTF-8 text
    fn h_json_str() { let n = rt::choice(4); string(n) }
    fn h_json_str4() { string(4) }
    fn h_json_str5() { string(5) }
    /// fragments, wherever text may occur
    fn h_json_frags() {
        let n = rt::choice(3);
        let mut f = Vec::new();
        for _ in 0..n {
            let k = rt::choice(2);
            f.push((rt::flag(), rt::ascii(k)));
        }
        let v = place(f);
        expect(&v);
    }
    /// up to four fragments, one arbitrary byte in any of them
    fn h_json_frags4() {
        let n = 2 + rt::choice(3);
        let at = rt::choice(n);
        let mut f = Vec::new();
        for i in 0..n {
            let t = if i == at { rt::ascii(1) } else { ["", "x", "\\", "\n"][rt::choice(4)] };
            f.push((rt::flag(), t));
        }
        expect(&Node::Text(None, f));
    }
    /// multi-byte characters in fragments
    fn h_json_frags_utf8() {
        let a = rt::utf8(1 + rt::choice(3));
        let b = rt::ascii(1);
        let f = if rt::flag() { vec![(true, a), (false, b)] } else { vec![(false, b), (true, a)] };
        let s: String = f.iter().map(|(_, f)| *f).collect();
        let Ok(out) = sval_json::stream_to_string(&Node::Text(Some(s.len()), f)) else { rt::fail("text was rejected") };
        rt::reach(1);
        check!(is_doc(out.as_bytes(), &J::Str(s.into_bytes())), "the JSON string doesn't decode to the text");
    }
    /// longer text with arbitrary bytes anywhere
    fn h_json_long() {
        let s = long_text(20);
        let frags = if rt::flag() {
            vec![(false, s)]
        } else {
            vec![(false, &s[..9]), (true, &s[9..])]
        };
        expect(&Node::Text(None, frags));
    }
    /// text of many lengths with one arbitrary byte anywhere
    fn h_json_longer() {
        let n = [40, 70, 140, 260][rt::choice(4)];
        let s = one_byte_text(n);
        expect(&Node::Text(None, vec![(rt::flag(), s)]));
    }
    fn h_json_long_label() {
        let s = long_text(18);
        let lab = Lab { s, is_static: rt::flag(), tag: None };
        expect(&Node::Record(Hdr::default(), Some(1), vec![(None, lab, Node::Null)]));
    }

    /// 8 bit integers in full
    fn h_json_int() {
        let n = match rt::choice(6) {
            0 => Node::U8(rt::u8_()),
            1 => Node::I8(rt::i8_()),
            2 => Node::U16(rt::u8_() as u16),
            3 => Node::I16(rt::i8_() as i16),
            4 => Node::U16(u16::MAX - rt::u8_() as u16),
            _ => Node::I16(i16::MIN + rt::u8_() as i16),
        };
        expect(&n);
    }
    /// wider integers in windows around the boundaries of every type
    fn h_json_int_wide() {
        let k = rt::choice(12);
        match k {
            0 => wide(0, false),
            1 => wide(9_999_999_900, false),
            2 => wide(u32::MAX as u128 - 100, false),
            3 => wide(i64::MAX as u128 - 100, false),
            4 => wide(u64::MAX as u128 - 100, false),
            5 => wide(i128::MAX as u128 - 100, false),
            6 => wide(u128::MAX - 255, false),
            7 => wide((i32::MIN as i128 - 100) as u128, true),
            8 => wide((i64::MIN as i128 - 100) as u128, true),
            9 => wide(i128::MIN as u128, true),
            10 => wide((-100i128) as u128, true),
            _ => wide((i64::MAX as i128 - 100) as u128, true),
        }
    }
    /// 128 bit integers over the whole range
    fn h_json_int_spread() {
        let v = spread();
        rt::reach(1);
        expect(&if rt::flag() { Node::U128(v) } else { Node::I128(v as i128) });
    }
    /// every text of the documented number grammar, in any fragments
    fn h_json_number() { let n = 1 + rt::choice(4); number_text(n) }
    /// long numbers: every part is short or long, zeros or digits, with one arbitrary digit; in up to four fragments
    fn h_json_number_long() { number_long(true) }
    fn h_json_number_long_all() { number_long(false) }
    fn h_json_number5() { number_text(5) }
    fn h_json_number6() { number_text(6) }
    fn h_json_number8() { number_text(8) }
    fn h_json_number7() { number_text(7) }
    /// not-a-number and infinities, as floats and as text, are null
    fn h_json_nonfinite() {
        let v = match rt::choice(3) {
            0 => {
                let b = rt::u64_();
                rt::assume(b >> 52 & 0x7ff == 0x7ff);
                Node::F64(f64::from_bits(b))
            }
            1 => {
                let b = rt::u32_();
                rt::assume(b >> 23 & 0xff == 0xff);
                Node::F32(f32::from_bits(b))
            }
            _ => {
                const W: [&str; 6] = ["nan", "snan", "inf", "infinity", "-inf", "+nan"];
                let w = W[rt::choice(6)].as_bytes();
                let mut v = w.to_vec();
                let case = rt::bytes::<8>();
                for (i, c) in v.iter_mut().enumerate() {
                    if c.is_ascii_lowercase() && case[i] & 1 == 1 {
                        *c -= 32;
                    }
                }
                let s = std::str::from_utf8(Box::leak(v.into_boxed_slice())).unwrap();
                let cut = rt::choice(s.len() + 1);
                Node::Tagged(Hdr { tag: Some(sval::tags::NUMBER), ..Hdr::default() },
                    Box::new(Node::Text(None, vec![(false, &s[..cut]), (true, &s[cut..])])))
            }
        };
        let v = Node::Seq(None, vec![v, Node::Null]);
        let Ok(out) = sval_json::stream_to_string(&v) else { rt::fail("rejected") };
        rt::reach(1);
        check!(out == "[null,null]", "a non-finite number isn't null");
    }
    /// finite floats from a list
    fn h_json_float() {
        const F: [f64; 14] = [0.0, -0.0, 1.0, -1.5, 0.1, 1e15, 1e16, 1.7976931348623157e308, 5e-324, 123456789.125, 1e-7, 3.0e-5, 4503599627370496.5, -2.2250738585072014e-308];
        let v = F[rt::choice(14)];
        let single = rt::flag();
        let n = if single { Node::F32(v as f32) } else { Node::F64(v) };
        rt::assume(!single || (v as f32).is_finite());
        let Ok(out) = sval_json::stream_to_string(&n) else { rt::fail("rejected") };
        rt::reach(1);
        check!(number_parts(out.as_bytes(), true).is_some(), "a finite float isn't a JSON number");
        if single {
            check!(out.parse::<f32>().ok().map(f32::to_bits) == Some((v as f32).to_bits()), "a float doesn't round-trip");
        } else {
            check!(out.parse::<f64>().ok().map(f64::to_bits) == Some(v.to_bits()), "a float doesn't round-trip");
        }
    }
    /// finite floats of every exponent
    fn h_json_float_exp() {
        let (out, v) = if rt::flag() {
            let v = crate::shapes::some_f32();
            let Ok(out) = sval_json::stream_to_string(&Node::F32(v)) else { rt::fail("rejected") };
            (out, Err(v))
        } else {
            let v = crate::shapes::some_f64();
            let Ok(out) = sval_json::stream_to_string(&Node::F64(v)) else { rt::fail("rejected") };
            (out, Ok(v))
        };
        rt::reach(1);
        check!(number_parts(out.as_bytes(), true).is_some(), "a finite float isn't a JSON number");
        check!(match v {
            Err(v) => out.parse::<f32>().ok().map(f32::to_bits) == Some(v.to_bits()),
            Ok(v) => out.parse::<f64>().ok().map(f64::to_bits) == Some(v.to_bits()),
        }, "a float doesn't round-trip");
    }
    /// numbers as enum variants and map keys
    fn h_json_number_ctx() {
        let s = rt::leak_bytes(2);
        for b in s { rt::assume(b.wrapping_sub(b'0') < 10); }
        let s = unsafe { std::str::from_utf8_unchecked(s) };
        let want = J::Num(if s.as_bytes()[0] == b'0' { s.as_bytes()[1..].to_vec() } else { s.as_bytes().to_vec() });
        let l = rt::letters(1);
        let num = |label: bool| Node::Tagged(
            Hdr { tag: Some(sval::tags::NUMBER), label: if label { Some(Lab { s: l, is_static: false, tag: None }) } else { None }, index: None },
            Box::new(Node::Text(None, vec![(true, s)])));
        let (n, j) = match rt::choice(5) {
            0 => (Node::Enum(Hdr::default(), Some(Box::new(num(true)))), J::Obj(vec![(l.as_bytes().to_vec(), want)])),
            1 => (Node::Enum(Hdr::default(), Some(Box::new(num(false)))), want),
            2 => (Node::Map(None, vec![(num(false), num(true))]), J::Obj(vec![(match &want { J::Num(n) => n.clone(), _ => unreachable!() }, want)])),
            3 => (Node::Seq(None, vec![num(false), Node::Text(None, vec![(false, s)]), num(true)]), J::Arr(vec![want.clone(), J::Str(s.as_bytes().to_vec()), want])),
            _ => (Node::Record(Hdr::default(), None, vec![(None, Lab { s: l, is_static: false, tag: None }, num(true)), (None, Lab { s: l, is_static: true, tag: None }, Node::Text(None, vec![(false, s)]))]),
                  J::Obj(vec![(l.as_bytes().to_vec(), want), (l.as_bytes().to_vec(), J::Str(s.as_bytes().to_vec()))])),
        };
        let Ok(out) = sval_json::stream_to_string(&n) else { rt::fail("a number was rejected") };
        rt::reach(1);
        check!(is_doc(out.as_bytes(), &j), "a number in context isn't written as that number");
    }

    /// every schedule of short, interrupted, refused and failing writes
    fn h_json_io() {
        let n = small(rt::choice(5));
        let Ok(want) = sval_json::stream_to_string(&n) else { rt::fail("rejected") };
        let mut w = FlakyIo { accepted: Vec::new(), faults: 3, interrupts: 0, failed: false, after: false };
        let r = sval_json::stream_to_io_write(&mut w, &n);
        check!(!w.after, "written to after an error");
        check!(want.as_bytes().starts_with(&w.accepted), "the bytes written are not a prefix of the document");
        match r {
            Ok(()) => {
                rt::reach(1);
                check!(!w.failed, "a failing writer reported success");
                check!(w.accepted == want.as_bytes(), "success, but the document is truncated or garbled");
            }
            Err(_) => {
                rt::reach(2);
                check!(w.failed, "a failure although the writer accepted everything or was only interrupted");
            }
        }
    }
    fn h_json_io6() {
        let n = small(rt::choice(5));
        let Ok(want) = sval_json::stream_to_string(&n) else { rt::fail("rejected") };
        let mut w = FlakyIo { accepted: Vec::new(), faults: 5, interrupts: 0, failed: false, after: false };
        let r = sval_json::stream_to_io_write(&mut w, &n);
        check!(!w.after, "written to after an error");
        check!(want.as_bytes().starts_with(&w.accepted), "the bytes written are not a prefix of the document");
        check!(r.is_ok() == !w.failed, "the result doesn't match the writer's");
        rt::reach(1);
        check!(r.is_err() || w.accepted == want.as_bytes(), "success, but the document is truncated or garbled");
    }
    /// formatters that fail at any call of any kind of value, and values that fail
    fn h_json_fmt_full() {
        let n = crate::shapes::faulty();
        let mut all = FlakyFmt { accepted: String::new(), fail_at: usize::MAX, calls: 0, after: false };
        rt::assume(sval_json::stream_to_fmt_write(&mut all, &n).is_ok());
        let at = rt::choice(40);
        rt::assume(at < all.calls);
        let mut w = FlakyFmt { accepted: String::new(), fail_at: at, calls: 0, after: false };
        let r = sval_json::stream_to_fmt_write(&mut w, &n);
        check!(!w.after, "written to after an error");
        check!(r.is_err(), "a failing formatter reported success");
        check!(all.accepted.starts_with(&w.accepted), "not a prefix of the document");
        rt::reach(1);
    }
    fn h_json_fmt_big() {
        let n = crate::shapes::faulty_big(260);
        let mut all = FlakyFmt { accepted: String::new(), fail_at: usize::MAX, calls: 0, after: false };
        rt::assume(sval_json::stream_to_fmt_write(&mut all, &n).is_ok());
        let at = crate::shapes::fails_far(all.calls);
        let mut w = FlakyFmt { accepted: String::new(), fail_at: at, calls: 0, after: false };
        let r = sval_json::stream_to_fmt_write(&mut w, &n);
        check!(!w.after, "written to after an error");
        check!(r.is_err(), "a failing formatter reported success");
        check!(w.accepted.len() <= all.accepted.len() && rt::eq(w.accepted.as_bytes(), &all.accepted.as_bytes()[..w.accepted.len()]), "not a prefix of the document");
        rt::reach(1);
    }
    fn h_json_broken_full() {
        let n = crate::shapes::breaking();
        check!(sval_json::stream_to_string(&n).is_err(), "a failing value was serialized");
        check!(sval_json::stream_to_vec(&n).is_err(), "a failing value was serialized");
        check!(sval_json::stream_to_io_write(Vec::new(), &n).is_err(), "a failing value was serialized");
        rt::reach(1);
    }
    /// formatters that fail at any call
    fn h_json_fmt() {
        let n = small(rt::choice(5));
        let mut all = FlakyFmt { accepted: String::new(), fail_at: usize::MAX, calls: 0, after: false };
        check!(sval_json::stream_to_fmt_write(&mut all, &n).is_ok(), "rejected");
        let at = rt::choice(12);
        let mut w = FlakyFmt { accepted: String::new(), fail_at: at, calls: 0, after: false };
        let r = sval_json::stream_to_fmt_write(&mut w, &n);
        check!(!w.after, "written to after an error");
        if at >= all.calls {
            rt::reach(1);
            check!(r.is_ok() && w.accepted == all.accepted, "a formatter that never fails got something else");
        } else {
            rt::reach(2);
            check!(r.is_err(), "a failing formatter reported success");
            check!(all.accepted.starts_with(&w.accepted), "the output is not a prefix of the document");
        }
    }
    /// all writers produce the same bytes, and fail together
    fn h_json_agree() {
        let mut g = Gen { nodes: 3, kinds: &[K::Null, K::I64, K::Text, K::Tag, K::Enum, K::Seq, K::Map, K::Record], hdr: H::Label, max_children: 2, ..Gen::default() };
        let mut n = g.value();
        if rt::flag() {
            n = Node::Seq(None, vec![n, Node::Broken]);
        }
        let s = sval_json::stream_to_string(&n);
        let v = sval_json::stream_to_vec(&n);
        let j = sval_json::stream_to_json_str(&n);
        let mut f = String::new();
        let fr = sval_json::stream_to_fmt_write(&mut f, &n);
        let mut o = Vec::new();
        let or = sval_json::stream_to_io_write(&mut o, &n);
        match s {
            Ok(s) => {
                rt::reach(1);
                check!(doc(&n).is_ok(), "a value that failed to stream was accepted");
                check!(matches!(&v, Ok(v) if v == s.as_bytes()), "the byte vector differs");
                check!(matches!(&j, Ok(j) if j.as_str() == s && j.as_bytes() == s.as_bytes()), "the JSON string differs");
                check!(fr.is_ok() && f == s, "the formatter's output differs");
                check!(or.is_ok() && o == s.as_bytes(), "the writer's output differs");
            }
            Err(_) => {
                rt::reach(2);
                check!(v.is_err() && j.is_err() && fr.is_err() && or.is_err(), "only some of the writers failed");
                check!(f.as_bytes() == &o[..], "the writers stopped at different points");
            }
        }
    }
    /// embedded JSON comes out verbatim
    fn h_json_embed() {
        let k = rt::choice(4);
        embed(rt::ascii(k))
    }
    fn h_json_embed_long() {
        let k = [40, 260, 1030][rt::choice(3)];
        embed(crate::shapes::spotted(k))
    }
    /// text that is tagged as already escaped is quoted and verbatim; numbers tagged as JSON are verbatim
    fn h_json_native() {
        let k = rt::choice(3);
        let s = rt::ascii(k);
        let cut = rt::choice(s.len() + 1);
        native(s, cut)
    }
    fn h_json_native_long() {
        let k = [40, 260, 1030][rt::choice(3)];
        let s = crate::shapes::spotted(k);
        native(s, [0, 1, k / 2, k - 1][rt::choice(4)])
    }
    /// writers that fail once in a long document
    fn h_json_io_long() {
        let n = crate::shapes::big_upto([0, 2, 4][rt::choice(3)], 260, 130, 33, false, true);
        let Ok(want) = sval_json::stream_to_string(&n) else { rt::fail("rejected") };
        let mut w = OnceIo { accepted: Vec::new(), calls: 0, at: [0, 1, 2, 3, 9, 17, 64, 130, 200][rt::choice(9)], failed: false, after: false };
        let r = sval_json::stream_to_io_write(&mut w, &n);
        check!(!w.after, "written to after an error");
        check!(r.is_ok() == !w.failed, "the result doesn't match the writer's");
        check!(want.as_bytes().starts_with(&w.accepted), "the bytes written are not a prefix of the document");
        check!(w.failed || w.accepted == want.as_bytes(), "success, but the document is truncated or garbled");
        rt::reach(1);
    }
}

fn embed(s: &'static str) {
    let t = rt::ascii(1);
    let mut q = Vec::new();
    write_str(t.as_bytes(), &mut q);
    let e = Embed(sval_json::JsonStr::new(s), rt::choice(4), t);
    let mut want = Vec::new();
    match e.1 {
        0 => want.extend_from_slice(s.as_bytes()),
        1 => {
            want.push(b'[');
            want.extend_from_slice(s.as_bytes());
            want.push(b',');
            want.extend_from_slice(&q);
            want.push(b']');
        }
        _ => {
            want.push(b'{');
            want.extend_from_slice(&q);
            want.push(b':');
            want.extend_from_slice(s.as_bytes());
            want.push(b',');
            want.extend_from_slice(&q);
            want.push(b':');
            want.extend_from_slice(&q);
            want.push(b'}');
        }
    }
    let Ok(out) = sval_json::stream_to_string(&e) else { rt::fail("rejected") };
    rt::reach(1);
    check!(out.as_bytes() == &want[..], "embedded JSON isn't verbatim");
    let b = sval_json::JsonStr::boxed(s);
    check!(b.as_str() == s && *b == *s, "a boxed JSON string has other contents");
}

fn native(s: &'static str, cut: usize) {
    let t = rt::ascii(1);
    let (tag, quoted): (Tag, bool) = if rt::flag() { (sval_json::tags::JSON_TEXT, true) } else { (sval_json::tags::JSON_NUMBER, false) };
    let n = Node::Seq(None, vec![
        Node::Tagged(Hdr { tag: Some(tag), ..Hdr::default() }, Box::new(Node::Text(None, vec![(false, &s[..cut]), (true, &s[cut..])]))),
        Node::Text(None, vec![(false, t)]),
    ]);
    let mut want = vec![b'['];
    if quoted { want.push(b'"'); }
    want.extend_from_slice(s.as_bytes());
    if quoted { want.push(b'"'); }
    want.push(b',');
    write_str(t.as_bytes(), &mut want);
    want.push(b']');
    let Ok(out) = sval_json::stream_to_string(&n) else { rt::fail("rejected") };
    rt::reach(1);
    check!(out.as_bytes() == &want[..], "native text isn't verbatim");
    let _ = parse;
}

/// Misbehaves at one call.
struct OnceIo {
    accepted: Vec<u8>,
    calls: u32,
    at: u32,
    failed: bool,
    after: bool,
}

impl io::Write for OnceIo {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.after |= self.failed;
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        let mut n = b.len();
        if self.calls == self.at + 1 {
            match rt::choice(5) {
                0 => n = 1,
                1 => n = n / 2 + 1,
                2 => return Err(io::Error::from(io::ErrorKind::Interrupted)),
                3 => {
                    self.failed = true;
                    return Ok(0);
                }
                _ => {
                    self.failed = true;
                    return Err(io::Error::from(io::ErrorKind::BrokenPipe));
                }
            }
        }
        n = n.min(b.len());
        self.accepted.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
