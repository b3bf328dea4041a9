//! The core traits: defaults, forwarding, conversions, metadata and the impls for std types.
use crate::node::{Gen, Hdr, Lab, Node, H, K};
use crate::rec::{record, same, tag_code, Min, Rec, COMPUTED, EXACT, MERGED, T1, T2};
use crate::shapes::spread;
use crate::{check, harnesses, rt};
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hash, Hasher};
use sval::{Index, Label, Result, Stream, Tag, Value};

// ---- integers through the defaults ----

/// What a stream that supports only some of the integer methods was given.
#[derive(Default)]
struct Got {
    /// (signed?, value's bits)
    int: Option<(bool, u128)>,
    text: Vec<u8>,
    number: u32,
    calls: u32,
    /// Refuses number text.
    stop: bool,
}

macro_rules! required {
    () => {
        fn null(&mut self) -> Result {
            rt::fail("an integer became null")
        }
        fn bool(&mut self, _: bool) -> Result {
            rt::fail("an integer became a boolean")
        }
        fn text_begin(&mut self, _: Option<usize>) -> Result {
            check!(self.0.number == 1, "text outside of a number");
            Ok(())
        }
        fn text_fragment_computed(&mut self, s: &str) -> Result {
            self.0.text.extend_from_slice(s.as_bytes());
            Ok(())
        }
        fn text_end(&mut self) -> Result {
            self.0.calls += 1;
            Ok(())
        }
        fn tagged_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result {
            check!(t == Some(&sval::tags::NUMBER) && l.is_none() && i.is_none(), "an odd tag");
            self.0.number += 1;
            if self.0.stop {
                return Err(sval::Error::new());
            }
            Ok(())
        }
        fn tagged_end(&mut self, t: Option<&Tag>, _: Option<&Label>, _: Option<&Index>) -> Result {
            check!(t == Some(&sval::tags::NUMBER), "an odd tag");
            self.0.number += 1;
            Ok(())
        }
        fn f64(&mut self, _: f64) -> Result {
            rt::fail("an integer became a float")
        }
        fn seq_begin(&mut self, _: Option<usize>) -> Result {
            rt::fail("an integer became a sequence")
        }
        fn seq_value_begin(&mut self) -> Result {
            rt::fail("an integer became a sequence")
        }
        fn seq_value_end(&mut self) -> Result {
            rt::fail("an integer became a sequence")
        }
        fn seq_end(&mut self) -> Result {
            rt::fail("an integer became a sequence")
        }
    };
}

macro_rules! ints {
    ($($m:ident $t:ty,)*) => { $(
        fn $m(&mut self, v: $t) -> Result {
            self.0.calls += 1;
            #[allow(unused_comparisons)]
            let neg = v < 0;
            self.0.int = Some((neg, v as i128 as u128));
            Ok(())
        }
    )* };
}

struct S64(Got);
struct S32(Got);
struct Su64(Got);
struct S128(Got);

impl<'s> Stream<'s> for S64 {
    required!();
    ints! { i64 i64, }
}
impl<'s> Stream<'s> for S32 {
    required!();
    ints! { i64 i64, i32 i32, u32 u32, u8 u8, }
}
impl<'s> Stream<'s> for Su64 {
    required!();
    ints! { i64 i64, u64 u64, i16 i16, }
}
impl<'s> Stream<'s> for S128 {
    required!();
    ints! { i64 i64, i128 i128, u128 u128, }
}

fn decimal(neg: bool, bits: u128) -> Vec<u8> {
    let mut m = if neg { (bits as i128).unsigned_abs() } else { bits };
    let mut v = Vec::new();
    loop {
        v.push(b'0' + (m % 10) as u8);
        m /= 10;
        if m == 0 {
            break;
        }
    }
    if neg {
        v.push(b'-');
    }
    v.reverse();
    v
}

fn got(g: &Got, neg: bool, bits: u128) {
    check!(g.calls == 1, "not exactly one number");
    match g.int {
        Some((n, b)) => {
            rt::reach(1);
            check!(n == neg && b == bits, "an integer changed its value");
        }
        None => {
            rt::reach(2);
            check!(g.number == 2, "number text isn't tagged as a number");
            check!(g.text == decimal(neg, bits), "number text isn't the integer");
        }
    }
}

fn widen(n: &Node, neg: bool, bits: u128) {
    let mut a = S64(Got::default());
    check!(n.stream(&mut a).is_ok(), "an integer failed");
    got(&a.0, neg, bits);
    let mut a = S32(Got::default());
    check!(n.stream(&mut a).is_ok(), "an integer failed");
    got(&a.0, neg, bits);
    let mut a = Su64(Got::default());
    check!(n.stream(&mut a).is_ok(), "an integer failed");
    got(&a.0, neg, bits);
    let mut a = S128(Got::default());
    check!(n.stream(&mut a).is_ok(), "an integer failed");
    check!(a.0.int.is_some(), "a 128 bit stream got text");
    got(&a.0, neg, bits);
}

/// Text is used exactly for what the stream can't take otherwise; its contents are not looked at.
fn decide(n: &Node, neg: bool, bits: u128) {
    let i64s = bits as i128 >= i64::MIN as i128 && bits as i128 <= i64::MAX as i128 && (neg || bits >> 127 == 0);
    let u64s = matches!(n, Node::U64(_));
    macro_rules! each {
        ($($s:ident $must:expr,)*) => { $(
            let mut a = $s(Got { stop: true, ..Got::default() });
            let ok = n.stream(&mut a).is_ok();
            match a.0.int {
                Some((n, b)) => {
                    check!(ok && a.0.calls == 1 && a.0.number == 0, "an integer and something else");
                    check!(n == neg && b == bits, "an integer changed its value");
                }
                None => {
                    check!(a.0.number == 1, "neither an integer nor number text");
                    check!(!ok, "the stream's error is lost");
                    check!(!$must, "an integer that fits became text");
                }
            }
        )* };
    }
    each!(S64 i64s, S32 i64s, Su64 i64s || u64s, S128 true,);
}

fn window(base: u128) -> u128 {
    base.wrapping_add(rt::u8_() as u128)
}

// ---- lowering ----

/// The documented lowering of everything to the required methods, written out.
fn lower(n: &Node, r: &mut Rec) {
    let _ = match n {
        Node::Null => r.null(),
        Node::Bool(v) => r.bool(*v),
        Node::U8(v) => r.i64(*v as i64),
        Node::U16(v) => r.i64(*v as i64),
        Node::U32(v) => r.i64(*v as i64),
        Node::I8(v) => r.i64(*v as i64),
        Node::I16(v) => r.i64(*v as i64),
        Node::I32(v) => r.i64(*v as i64),
        Node::I64(v) => r.i64(*v),
        Node::F64(v) => r.f64(*v),
        Node::F32(v) => r.f64(*v as f64),
        // only digits here
        Node::U64(v) => r.i64(*v as i64),
        Node::U128(v) => r.i64(*v as i64),
        Node::I128(v) => r.i64(*v as i64),
        Node::Text(_, f) => {
            let _ = r.text_begin(None);
            for (_, s) in f {
                let _ = r.text_fragment_computed(s);
            }
            r.text_end()
        }
        Node::Bin(_, f) => {
            let _ = r.seq_begin(None);
            for (_, s) in f {
                for b in *s {
                    let _ = r.seq_value_begin();
                    let _ = r.i64(*b as i64);
                    let _ = r.seq_value_end();
                }
            }
            r.seq_end()
        }
        Node::Tag(h) => match &h.label {
            Some(l) if h.tag.as_ref() != Some(&sval::tags::RUST_OPTION_NONE) => {
                let _ = r.text_begin(None);
                let _ = r.text_fragment_computed(l.s);
                r.text_end()
            }
            _ => r.null(),
        },
        Node::Tagged(_, v) | Node::Enum(_, Some(v)) | Node::Hint(_, v) | Node::ByValue(v) | Node::ByComputed(v) => {
            lower(v, r);
            Ok(())
        }
        Node::Enum(_, None) => Ok(()),
        Node::Seq(_, vs) => seq(vs.iter(), r),
        Node::Tuple(_, _, vs) => seq(vs.iter().map(|v| &v.2), r),
        Node::Map(_, vs) => {
            let _ = r.seq_begin(None);
            for (k, v) in vs {
                pair(k, v, r);
            }
            r.seq_end()
        }
        Node::Record(_, _, vs) => {
            let _ = r.seq_begin(None);
            for (_, l, v) in vs {
                pair(&Node::Text(None, vec![(true, l.s)]), v, r);
            }
            r.seq_end()
        }
        Node::RecordTuple(_, _, vs) => {
            let _ = r.seq_begin(None);
            for (_, l, _, v) in vs {
                pair(&Node::Text(None, vec![(true, l.s)]), v, r);
            }
            r.seq_end()
        }
        Node::Broken => unreachable!(),
    };
}

fn seq<'a>(vs: impl Iterator<Item = &'a Node>, r: &mut Rec) -> Result {
    let _ = r.seq_begin(None);
    for v in vs {
        let _ = r.seq_value_begin();
        lower(v, r);
        let _ = r.seq_value_end();
    }
    r.seq_end()
}

fn pair(k: &Node, v: &Node, r: &mut Rec) {
    let _ = r.seq_value_begin();
    let _ = r.seq_begin(None);
    let _ = r.seq_value_begin();
    lower(k, r);
    let _ = r.seq_value_end();
    let _ = r.seq_value_begin();
    lower(v, r);
    let _ = r.seq_value_end();
    let _ = r.seq_end();
    let _ = r.seq_value_end();
}

fn has_empty_enum(n: &Node) -> bool {
    match n {
        Node::Enum(_, None) => true,
        Node::Tagged(_, v) | Node::Enum(_, Some(v)) | Node::Hint(_, v) | Node::ByValue(v) | Node::ByComputed(v) => {
            has_empty_enum(v)
        }
        Node::Seq(_, vs) => vs.iter().any(has_empty_enum),
        Node::Tuple(_, _, vs) => vs.iter().any(|v| has_empty_enum(&v.2)),
        Node::Map(_, vs) => vs.iter().any(|(k, v)| has_empty_enum(k) || has_empty_enum(v)),
        Node::Record(_, _, vs) => vs.iter().any(|v| has_empty_enum(&v.2)),
        Node::RecordTuple(_, _, vs) => vs.iter().any(|v| has_empty_enum(&v.3)),
        _ => false,
    }
}

// ---- streams that handle some of the methods ----

/// Which groups of methods a stream handles, decided when it first matters.
#[derive(Default)]
struct Handles([std::cell::Cell<Option<bool>>; 9]);

const BIN: usize = 0;
const MAP: usize = 1;
const REC: usize = 2;
const TUP: usize = 3;
const RTUP: usize = 4;
const TAG: usize = 5;
const TAGGED: usize = 6;
const ENUM: usize = 7;
const HINT: usize = 8;

impl Handles {
    fn has(&self, g: usize) -> bool {
        if let Some(v) = self.0[g].get() {
            return v;
        }
        // a variant that is only a map isn't one any more
        let v = (g == TAGGED && self.0[ENUM].get() == Some(true)) || ((g != ENUM || self.0[TAGGED].get() != Some(false)) && rt::flag());
        self.0[g].set(Some(v));
        v
    }

    fn tagged(&self, h: &Hdr, v: Node) -> Node {
        if self.has(TAGGED) {
            Node::Tagged(h.clone(), Box::new(v))
        } else {
            v
        }
    }

    fn map(&self, vs: Vec<(Node, Node)>) -> Node {
        if self.has(MAP) {
            return Node::Map(None, vs);
        }
        Node::Seq(None, vs.into_iter().map(|(k, v)| self.tuple(&Hdr::default(), vec![(None, Index::new(0), k), (None, Index::new(1), v)])).collect())
    }

    fn tuple(&self, h: &Hdr, vs: Vec<(Option<Tag>, Index, Node)>) -> Node {
        if self.has(TUP) {
            return Node::Tuple(h.clone(), None, vs);
        }
        self.tagged(h, Node::Seq(None, vs.into_iter().map(|v| v.2).collect()))
    }

    fn record(&self, h: &Hdr, vs: Vec<(Option<Tag>, Lab, Node)>) -> Node {
        if self.has(REC) {
            return Node::Record(h.clone(), None, vs);
        }
        self.tagged(h, self.map(vs.into_iter().map(|(_, l, v)| (Node::Text(None, vec![(true, l.s)]), v)).collect()))
    }

    /// The value as the stream should see it.
    fn seen(&self, n: &Node) -> Node {
        match n {
            Node::Bin(_, f) if !self.has(BIN) => {
                Node::Seq(None, f.iter().flat_map(|(_, s)| s.iter().map(|b| Node::U8(*b))).collect())
            }
            Node::Tag(h) if !self.has(TAG) => self.tagged(h, match &h.label {
                Some(l) if h.tag.as_ref() != Some(&sval::tags::RUST_OPTION_NONE) => Node::Text(None, vec![(true, l.s)]),
                _ => Node::Null,
            }),
            Node::Tagged(h, v) => self.tagged(h, self.seen(v)),
            Node::Enum(h, Some(v)) => {
                if self.has(ENUM) {
                    Node::Enum(h.clone(), Some(Box::new(self.seen(v))))
                } else {
                    self.tagged(h, self.seen(v))
                }
            }
            Node::Hint(t, v) => {
                if self.has(HINT) {
                    Node::Hint(t.clone(), Box::new(self.seen(v)))
                } else {
                    self.seen(v)
                }
            }
            Node::ByValue(v) | Node::ByComputed(v) => self.seen(v),
            Node::Seq(_, vs) => Node::Seq(None, vs.iter().map(|v| self.seen(v)).collect()),
            Node::Map(_, vs) => self.map(vs.iter().map(|(k, v)| (self.seen(k), self.seen(v))).collect()),
            Node::Tuple(h, _, vs) => self.tuple(h, vs.iter().map(|(t, i, v)| (t.clone(), i.clone(), self.seen(v))).collect()),
            Node::Record(h, _, vs) => self.record(h, vs.iter().map(|(t, l, v)| (t.clone(), l.clone(), self.seen(v))).collect()),
            Node::RecordTuple(h, _, vs) => {
                if self.has(RTUP) {
                    return Node::RecordTuple(h.clone(), None, vs.iter().map(|(t, l, i, v)| (t.clone(), l.clone(), i.clone(), self.seen(v))).collect());
                }
                self.record(h, vs.iter().map(|(t, l, _, v)| (t.clone(), l.clone(), self.seen(v))).collect())
            }
            n => n.clone(),
        }
    }
}

struct Part<'a>(&'a Handles, Rec);

macro_rules! part {
    ($( $g:ident: $f:ident($($a:ident: $t:ty),*); )*) => {
        $(fn $f(&mut self, $($a: $t),*) -> Result {
            if self.0.has($g) {
                self.1.$f($($a),*)
            } else {
                sval::default_stream::$f(self, $($a),*)
            }
        })*
    };
}
macro_rules! pass {
    ($( $f:ident($($a:ident: $t:ty),*); )*) => {
        $(fn $f(&mut self, $($a: $t),*) -> Result {
            self.1.$f($($a),*)
        })*
    };
}

impl<'a, 'sval> Stream<'sval> for Part<'a> {
    pass! {
        null(); bool(v: bool); u8(v: u8); u16(v: u16); u32(v: u32); u64(v: u64); u128(v: u128);
        i8(v: i8); i16(v: i16); i32(v: i32); i64(v: i64); i128(v: i128); f32(v: f32); f64(v: f64);
        text_begin(n: Option<usize>); text_fragment_computed(s: &str); text_end();
        seq_begin(n: Option<usize>); seq_value_begin(); seq_value_end(); seq_end();
    }
    part! {
        BIN: binary_begin(n: Option<usize>);
        BIN: binary_fragment_computed(s: &[u8]);
        BIN: binary_end();
        MAP: map_begin(n: Option<usize>);
        MAP: map_key_begin();
        MAP: map_key_end();
        MAP: map_value_begin();
        MAP: map_value_end();
        MAP: map_end();
        ENUM: enum_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
        ENUM: enum_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
        TAGGED: tagged_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
        TAGGED: tagged_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
        TAG: tag(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
        HINT: tag_hint(t: &Tag);
        REC: record_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>);
        REC: record_value_begin(t: Option<&Tag>, l: &Label);
        REC: record_value_end(t: Option<&Tag>, l: &Label);
        REC: record_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
        TUP: tuple_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>);
        TUP: tuple_value_begin(t: Option<&Tag>, i: &Index);
        TUP: tuple_value_end(t: Option<&Tag>, i: &Index);
        TUP: tuple_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
        RTUP: record_tuple_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>);
        RTUP: record_tuple_value_begin(t: Option<&Tag>, l: &Label, i: &Index);
        RTUP: record_tuple_value_end(t: Option<&Tag>, l: &Label, i: &Index);
        RTUP: record_tuple_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    }
}

fn partly(n: Node) {
    rt::assume(!has_empty_enum(&n));
    let handles = Handles::default();
    let cfg = crate::rec::Cfg { no_sizes: true, ..MERGED };
    let (want, _) = record(cfg, &handles.seen(&n));
    let mut got = Part(&handles, Rec::new(cfg));
    check!(n.stream(&mut got).is_ok(), "lowering failed");
    rt::reach(1);
    rt::obs(&got.1.log);
    same(&want, &got.1, "the lowered stream isn't the documented one");
}

fn lowered(mut g: Gen) {
    lowered_node(g.value())
}

fn lowered_node(n: Node) {
    rt::assume(!has_empty_enum(&n));
    let cfg = crate::rec::Cfg { no_sizes: true, ..MERGED };
    let mut want = Rec::new(cfg);
    lower(&n, &mut want);
    let mut got = Min(Rec::new(cfg));
    check!(n.stream(&mut got).is_ok(), "lowering failed");
    rt::reach(1);
    rt::obs(&got.0.log);
    same(&want, &got.0, "the lowered stream isn't the documented one");
}

// ---- forwarding ----

/// Streams its content through `Stream::value` of whatever stream it is given
struct Via<'a>(&'a Node, usize);

impl<'a> Value for Via<'a> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> Result {
        match self.1 {
            0 => s.value(self.0),
            1 => s.value_computed(self.0),
            2 => self.0.stream(s),
            3 => s.value(&self.0),
            4 => s.value_computed(&&self.0),
            _ => sval::stream_computed(s, self.0),
        }
    }
}

fn stream_to(n: &Node, how: usize, r: &mut Rec) -> Result {
    match how {
        0 => (&n).stream(r),
        1 => (&&n).stream(r),
        2 => Box::new(n).stream(r),
        3 => {
            let b: Box<Node> = Box::new(n.clone());
            b.stream(r)
        }
        4 => {
            let mut m = &mut *r;
            n.stream(&mut m)
        }
        5 => {
            let mut m: Box<&mut Rec> = Box::new(r);
            n.stream(&mut m)
        }
        6 => sval::stream(r, n),
        7 => sval::stream_computed(r, n),
        8 => Via(n, 0).stream(r),
        9 => Via(n, 1).stream(r),
        10 => Via(n, 2).stream(r),
        11 => Via(n, 3).stream(r),
        12 => Via(n, 4).stream(r),
        13 => Via(n, 5).stream(r),
        14 => sval::stream_computed(r, &Via(n, 0)),
        15 => sval::stream_computed(r, &Via(n, 1)),
        _ => {
            let mut m = &mut *r;
            sval::stream_computed(&mut m, n)
        }
    }
}

fn forward(mut g: Gen, exact: bool) {
    forward_node(g.value(), exact)
}

fn forward_node(n: Node, exact: bool) {
    let how = rt::choice(17);
    let cfg = if exact { EXACT } else { MERGED };
    let computed = matches!(how, 7 | 9 | 12 | 13 | 14 | 15 | 16);
    // a computed value's fragments are all computed: lifetimes are not part of the value
    let cfg = if computed && exact { COMPUTED } else { cfg };
    let (want, ok) = record(cfg, &n);
    check!(ok, "harness");
    let mut r = Rec::new(cfg);
    check!(stream_to(&n, how, &mut r).is_ok(), "forwarding failed");
    rt::reach(1);
    rt::obs(&r.log);
    same(&want, &r, "forwarding changed the stream");
}

fn forward_fault(mut g: Gen) {
    forward_fault_node(g.value(), 8)
}

fn forward_fault_node(n: Node, calls: usize) {
    let how = rt::choice(17);
    let (want, _) = record(MERGED, &n);
    let at = rt::choice(calls) as u32;
    let mut r = Rec::failing_at(MERGED, at);
    let res = stream_to(&n, how, &mut r);
    if at < want.tokens {
        rt::reach(2);
        check!(res.is_err(), "an error was swallowed");
        check!(r.after_fail == 0, "streaming went on after an error");
    } else {
        rt::reach(1);
        check!(res.is_ok(), "an error was invented");
        same(&want, &r, "forwarding changed the stream");
    }
}

// ---- conversions ----

/// A value with nothing but the default conversions.
struct Plain<'a>(&'a Node);
impl<'a> Value for Plain<'a> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> Result {
        self.0.stream(s)
    }
}

macro_rules! casts_agree {
    ($v:expr, $neg:expr, $bits:expr, $($f:ident $t:ty,)*) => { $( {
        let got = $v.$f();
        let fits = if $neg { <$t>::try_from($bits as i128).ok() } else { <$t>::try_from($bits as u128).ok() };
        check!(got == fits, concat!("wrong result of ", stringify!($f)));
    } )* };
}

fn casts<V: Value + ?Sized>(v: &V, neg: bool, bits: u128) {
    casts_agree!(v, neg, bits, to_i8 i8, to_i16 i16, to_i32 i32, to_i64 i64, to_i128 i128,
        to_u8 u8, to_u16 u16, to_u32 u32, to_u64 u64, to_u128 u128,);
    // beyond 64 bits the default streams are given text
    let s = bits as i128;
    if (neg && s < i64::MIN as i128) || (!neg && bits > i64::MAX as u128) {
        return;
    }
    check!(v.to_bool().is_none() && v.to_text().is_none() && v.to_binary().is_none(), "an integer is something else");
    check!(v.to_f32().is_none() && v.to_f64().is_none(), "an integer is a float");
}

macro_rules! each_int {
    ($v:ident => $body:expr) => {
        match rt::choice(10) {
            0 => { let $v = rt::u8_(); $body }
            1 => { let $v = rt::u16_(); $body }
            2 => { let $v = rt::u32_(); $body }
            3 => { let $v = rt::u64_(); $body }
            4 => { let $v = rt::u128_(); $body }
            5 => { let $v = rt::i8_(); $body }
            6 => { let $v = rt::i16_(); $body }
            7 => { let $v = rt::i32_(); $body }
            8 => { let $v = rt::i64_(); $body }
            _ => { let $v = rt::i128_(); $body }
        }
    };
}

/// Unchanged through every wrapper.
fn wrapped<V: Value>(v: V, f: &dyn Fn(&dyn Casts)) {
    match rt::choice(5) {
        0 => f(&v),
        1 => f(&&v),
        2 => f(&Box::new(v)),
        3 => f(&Some(v)),
        _ => f(&Some(Box::new(&v))),
    }
}

trait Casts {
    fn int(&self, neg: bool, bits: u128);
    fn other(&self) -> (Option<bool>, Option<u32>, Option<u64>, Option<&str>, Option<&[u8]>);
    fn no_ints(&self);
}

impl<V: Value> Casts for V {
    fn int(&self, neg: bool, bits: u128) {
        casts(self, neg, bits)
    }
    fn other(&self) -> (Option<bool>, Option<u32>, Option<u64>, Option<&str>, Option<&[u8]>) {
        (
            self.to_bool(),
            self.to_f32().map(f32::to_bits),
            self.to_f64().map(f64::to_bits),
            self.to_text(),
            self.to_binary(),
        )
    }
    fn no_ints(&self) {
        check!(
            self.to_i8().is_none() && self.to_i16().is_none() && self.to_i32().is_none() && self.to_i64().is_none()
                && self.to_i128().is_none() && self.to_u8().is_none() && self.to_u16().is_none()
                && self.to_u32().is_none() && self.to_u64().is_none() && self.to_u128().is_none(),
            "not an integer, but converts to one"
        );
    }
}

fn outer_tag(n: &Node) -> Option<Tag> {
    match n {
        Node::Tag(h) | Node::Tagged(h, _) | Node::Enum(h, _) | Node::Record(h, _, _) | Node::Tuple(h, _, _)
        | Node::RecordTuple(h, _, _) => h.tag.clone(),
        Node::Hint(_, v) | Node::ByValue(v) | Node::ByComputed(v) => outer_tag(v),
        Node::U8(_) | Node::U16(_) | Node::U32(_) | Node::U64(_) | Node::U128(_) | Node::I8(_) | Node::I16(_)
        | Node::I32(_) | Node::I64(_) | Node::I128(_) | Node::F32(_) | Node::F64(_) => Some(sval::tags::NUMBER),
        _ => None,
    }
}

// ---- metadata ----

#[derive(Default)]
struct Hash64(Vec<u8>);
impl Hasher for Hash64 {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn hashed<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut h = Hash64::default();
    t.hash(&mut h);
    h.0
}

fn any_index() -> (Index, bool, u128) {
    match rt::choice(12) {
        0 => { let v = rt::usize_(); (Index::new(v), false, v as u128) }
        1 => { let v = rt::u32_(); (Index::new_u32(v), false, v as u128) }
        2 => { let v = rt::u64_(); (Index::new_u64(v), false, v as u128) }
        3 => { let v = rt::i32_(); (Index::new_i32(v), v < 0, v as i128 as u128) }
        4 => { let v = rt::i64_(); (Index::new_i64(v), v < 0, v as i128 as u128) }
        5 => { let v = rt::isize_(); (Index::new_isize(v), v < 0, v as i128 as u128) }
        6 => { let v = rt::usize_(); (Index::from(v), false, v as u128) }
        7 => { let v = rt::u32_(); (Index::from(v), false, v as u128) }
        8 => { let v = rt::u64_(); (Index::from(v), false, v as u128) }
        9 => { let v = rt::i32_(); (Index::from(v), v < 0, v as i128 as u128) }
        10 => { let v = rt::i64_(); (Index::from(v), v < 0, v as i128 as u128) }
        _ => { let v = rt::isize_(); (Index::from(v), v < 0, v as i128 as u128) }
    }
}

fn any_label(s: &'static str) -> (Label<'static>, bool) {
    match rt::choice(3) {
        0 => (Label::new(s), true),
        1 => (Label::new_computed(s), false),
        _ => (Label::new_owned(s.to_owned()), false),
    }
}

/// One step in the life of a label
fn label_step(l: Label<'static>) -> Label<'static> {
    match rt::choice(4) {
        0 => l.clone(),
        1 => l.to_owned(),
        2 => match l.try_to_owned() {
            Ok(l) => l,
            Err(_) => rt::fail("a label couldn't be owned"),
        },
        _ => {
            let k = l.clone();
            drop(l);
            k
        }
    }
}

// ---- std types ----

fn expect<V: Value + ?Sized>(v: &V, want: &Node) {
    let (w, _) = record(EXACT, want);
    let (g, ok) = record(EXACT, v);
    check!(ok, "streaming failed");
    rt::reach(1);
    rt::obs(&g.log);
    same(&w, &g, "not the documented stream");
}

fn text(s: &'static str) -> Node {
    Node::Text(Some(s.len()), vec![(false, s)])
}

fn lit(s: &'static str, t: Option<Tag>) -> Lab {
    Lab { s, is_static: true, tag: t }
}

fn some(n: Node) -> Node {
    Node::Tagged(
        Hdr {
            tag: Some(sval::tags::RUST_OPTION_SOME),
            label: Some(lit("Some", Some(sval::tags::VALUE_IDENT))),
            index: Some(Index::new(1).with_tag(&sval::tags::VALUE_OFFSET)),
        },
        Box::new(n),
    )
}

fn none() -> Node {
    Node::Tag(Hdr {
        tag: Some(sval::tags::RUST_OPTION_NONE),
        label: Some(lit("None", Some(sval::tags::VALUE_IDENT))),
        index: Some(Index::new(0).with_tag(&sval::tags::VALUE_OFFSET)),
    })
}

fn constant(n: Node) -> Node {
    Node::Tagged(Hdr { tag: Some(sval::tags::CONSTANT_SIZE), ..Hdr::default() }, Box::new(n))
}

#[derive(Clone, Default)]
struct NoHash;
impl BuildHasher for NoHash {
    type Hasher = Const;
    fn build_hasher(&self) -> Const {
        Const
    }
}
struct Const;
impl Hasher for Const {
    fn finish(&self) -> u64 {
        7
    }
    fn write(&mut self, _: &[u8]) {}
}

struct Parts(&'static str, &'static str);
impl std::fmt::Display for Parts {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)?;
        f.write_str(self.1)
    }
}
/// Fails after its parts.
struct Half(Parts);
impl std::fmt::Display for Half {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)?;
        Err(std::fmt::Error)
    }
}
/// Text with a part that is displayed.
struct Within(&'static str, Parts);
impl Value for Within {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.text_begin(None)?;
        s.text_fragment(self.0)?;
        sval::stream_display_fragments(s, &self.1)?;
        s.text_fragment(self.0)?;
        s.text_end()
    }
}
struct Num(Parts);
impl Value for Num {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        sval::stream_number(s, &self.0)
    }
}

macro_rules! tuples {
    ($n:expr; $($k:literal => ($($i:tt)*),)*) => {
        match $n { $(
            $k => {
                let v = ($( { let _ = $i; rt::u8_() }, )*);
                let want = vec![$( (None, Index::new($i).with_tag(&sval::tags::VALUE_OFFSET), Node::U8(v.$i)) ),*];
                expect(&v, &Node::Tuple(Hdr::default(), Some($k), want));
            }
        )* _ => {} }
    };
}

const ALL: &[K] = &[
    K::Null, K::Bool, K::Int, K::F64, K::F32, K::Frags, K::BinFrags, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Seq,
    K::Map, K::Record, K::Tuple, K::RecordTuple, K::Hint, K::ByValue, K::ByComputed,
];
const LOWER: &[K] = &[
    K::Null, K::Bool, K::I64, K::F64, K::F32, K::Frags, K::BinFrags, K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record,
    K::Tuple, K::RecordTuple, K::Hint, K::ByValue, K::ByComputed,
];
const HEADED: &[K] = &[K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record, K::Tuple, K::RecordTuple];
const MAIN: &[K] = &[K::I64, K::Text, K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record, K::Tuple, K::RecordTuple];

/// The default conversions of a value are exact.
fn convert(n: &Node) {
    let p = Plain(n);
    rt::reach(1);
    // what it wraps
    let mut x = n;
    let mut computed = false;
    while let Node::Tagged(_, v) | Node::Enum(_, Some(v)) | Node::ByValue(v) | Node::ByComputed(v) = x {
        computed |= matches!(x, Node::ByComputed(_));
        x = &**v;
    }
    check!(p.to_bool() == if let Node::Bool(b) = x { Some(*b) } else { None }, "wrong result of to_bool");
    check!(p.to_f64().map(f64::to_bits) == if let Node::F64(b) = x { Some(b.to_bits()) } else { None }, "wrong result of to_f64");
    p.no_ints();
    match (p.to_text(), x) {
        (Some(t), Node::Text(_, f)) => {
            let s: String = f.iter().map(|f| f.1).collect();
            check!(t == s, "to_text isn't the text");
        }
        (Some(_), _) => rt::fail("to_text of something that isn't text"),
        (None, Node::Text(_, f)) => check!(computed || f.len() != 1 || f[0].0, "borrowed text doesn't convert"),
        (None, _) => {}
    }
    match (p.to_binary(), x) {
        (Some(t), Node::Bin(_, f)) => {
            let s: Vec<u8> = f.iter().flat_map(|f| f.1.iter().copied()).collect();
            check!(t == &s[..], "to_binary isn't the binary");
        }
        (Some(_), _) => rt::fail("to_binary of something that isn't binary"),
        (None, Node::Bin(_, f)) => check!(computed || f.len() != 1 || f[0].0, "borrowed binary doesn't convert"),
        (None, _) => {}
    }
}

harnesses! {
    /// every integer of up to 64 bits that fits 64 signed bits
    fn h_core_widen() {
        match rt::choice(9) {
            0 => { let v = rt::u8_(); widen(&Node::U8(v), false, v as u128) }
            1 => { let v = rt::u16_(); widen(&Node::U16(v), false, v as u128) }
            2 => { let v = rt::u32_(); widen(&Node::U32(v), false, v as u128) }
            3 => { let v = rt::u64_(); rt::assume(v <= i64::MAX as u64); widen(&Node::U64(v), false, v as u128) }
            4 => { let v = rt::i8_(); widen(&Node::I8(v), v < 0, v as i128 as u128) }
            5 => { let v = rt::i16_(); widen(&Node::I16(v), v < 0, v as i128 as u128) }
            6 => { let v = rt::i32_(); widen(&Node::I32(v), v < 0, v as i128 as u128) }
            7 => { let v = rt::i64_(); widen(&Node::I64(v), v < 0, v as i128 as u128) }
            _ => {
                let v = rt::i128_();
                rt::assume(v >= i64::MIN as i128 && v <= i64::MAX as i128);
                widen(&Node::I128(v), v < 0, v as u128);
                if v >= 0 {
                    widen(&Node::U128(v as u128), false, v as u128);
                }
            }
        }
    }
    /// around the edges where text takes over
    fn h_core_widen_big() {
        let v = match rt::choice(8) {
            0 => window(i64::MAX as u128 - 100),
            1 => window(u64::MAX as u128 - 100),
            2 => window(i128::MAX as u128 - 255),
            3 => window((i64::MIN as i128 - 100) as u128),
            4 => window(i128::MIN as u128),
            5 => window(10u128.pow(20) - 100),
            6 => window(10u128.pow(38) - 100),
            _ => window(-(10i128.pow(30)) as u128),
        };
        let s = v as i128;
        widen(&Node::I128(s), s < 0, v);
        if s >= 0 {
            widen(&Node::U128(v), false, v);
            if v <= u64::MAX as u128 {
                widen(&Node::U64(v as u64), false, v);
            }
        }
    }
    fn h_core_widen_spread() {
        let v = spread();
        rt::reach(1);
        if rt::flag() {
            widen(&Node::U128(v), false, v);
        } else {
            widen(&Node::I128(v as i128), (v as i128) < 0, v);
        }
    }
    /// where text takes over, for every 64 and 128 bit integer
    fn h_core_widen_all() {
        rt::reach(1);
        match rt::choice(3) {
            0 => { let v = rt::u128_(); decide(&Node::U128(v), false, v) }
            1 => { let v = rt::i128_(); decide(&Node::I128(v), v < 0, v as u128) }
            _ => { let v = rt::u64_(); decide(&Node::U64(v), false, v as u128) }
        }
    }
    fn h_core_widen_max() {
        let v = window(u128::MAX - 255);
        let mut a = S64(Got::default());
        check!(Node::U128(v).stream(&mut a).is_ok(), "an integer failed");
        rt::reach(1);
        check!(a.0.number == 2 && a.0.text == decimal(false, v), "number text isn't the integer");
    }

    /// the lowering of every value to the required methods
    fn h_core_lower() { lowered(Gen { nodes: 3, kinds: LOWER, hdr: H::Label, plain: false, max_children: 2, ..Gen::default() }) }
    fn h_core_lower_hdr() { lowered(Gen { nodes: 2, kinds: LOWER, hdr: H::All, plain: false, sizes: true, static_labels: true, max_children: 1, ..Gen::default() }) }
    fn h_core_lower_full() { lowered_node(crate::shapes::full_within()) }
    fn h_core_lower_full2() { lowered_node(crate::shapes::full_twice()) }
    fn h_core_lower_leaf() { lowered_node(crate::shapes::leaf_within()) }
    fn h_core_lower4() { lowered(Gen { nodes: 4, kinds: MAIN, hdr: H::Label, plain: false, max_children: 2, ..Gen::default() }) }
    fn h_core_lower5() { lowered(Gen { nodes: 5, kinds: MAIN, hdr: H::None, plain: false, max_children: 2, ..Gen::default() }) }
    /// streams that handle some of the methods
    fn h_core_part() { partly(Gen { nodes: 3, kinds: LOWER, hdr: H::None, max_children: 1, ..Gen::default() }.value()) }
    fn h_core_part_hdr() { partly(Gen { nodes: 2, kinds: LOWER, hdr: H::All, sizes: true, static_labels: true, value_tags: true, max_children: 1, ..Gen::default() }.value()) }
    fn h_core_part_full() { partly(crate::shapes::full_within()) }
    fn h_core_part_full2() { partly(crate::shapes::full_twice()) }
    fn h_core_part_leaf() { partly(crate::shapes::leaf_within()) }
    /// the lowering of `None`
    fn h_core_lower_none() {
        let h = Hdr { tag: Some(if rt::flag() { sval::tags::RUST_OPTION_NONE } else { sval::tags::RUST_OPTION_SOME }),
            label: Some(Lab { s: rt::ascii(1), is_static: rt::flag(), tag: None }), index: None };
        let n = if rt::flag() { Node::Tag(h) } else { Node::Seq(None, vec![Node::Tag(h), Node::Null]) };
        let cfg = crate::rec::Cfg { no_sizes: true, ..MERGED };
        let mut want = Rec::new(cfg);
        lower(&n, &mut want);
        let mut got = Min(Rec::new(cfg));
        check!(n.stream(&mut got).is_ok(), "lowering failed");
        rt::reach(1);
        same(&want, &got.0, "the lowered stream isn't the documented one");
    }
    /// a stream that fails stops its lowered value
    fn h_core_lower_fault() {
        let mut g = Gen { nodes: 3, kinds: MAIN, hdr: H::Label, max_children: 2, ..Gen::default() };
        let n = g.value();
        let mut all = Min(Rec::new(MERGED));
        check!(n.stream(&mut all).is_ok(), "lowering failed");
        let at = rt::choice(14) as u32;
        let mut m = Min(Rec::failing_at(MERGED, at));
        let r = n.stream(&mut m);
        if at < all.0.tokens {
            rt::reach(2);
            check!(r.is_err(), "an error was swallowed");
            check!(m.0.after_fail == 0, "streaming went on after an error");
        } else {
            rt::reach(1);
            check!(r.is_ok(), "an error was invented");
        }
    }

    fn h_core_lower_fault_full() {
        let n = crate::shapes::faulty();
        let mut all = Min(Rec::new(MERGED));
        check!(n.stream(&mut all).is_ok(), "lowering failed");
        let mut m = Min(Rec::failing_at(MERGED, crate::shapes::fails_at(all.0.tokens)));
        let r = n.stream(&mut m);
        rt::reach(1);
        check!(r.is_err(), "an error was swallowed");
        check!(m.0.after_fail == 0, "streaming went on after an error");
    }
    fn h_core_lower_fault_big() {
        let n = crate::shapes::faulty_big(260);
        let mut all = Min(Rec::new(MERGED));
        check!(n.stream(&mut all).is_ok(), "lowering failed");
        let mut m = Min(Rec::failing_at(MERGED, crate::shapes::fails_far(all.0.tokens as usize) as u32));
        let r = n.stream(&mut m);
        rt::reach(1);
        check!(r.is_err(), "an error was swallowed");
        check!(m.0.after_fail == 0, "streaming went on after an error");
    }
    fn h_core_forward_fault_big() {
        let n = crate::shapes::faulty_big(260);
        let (all, _) = record(MERGED, &n);
        let mut r = Rec::failing_at(MERGED, crate::shapes::fails_far(all.tokens as usize) as u32);
        let res = stream_to(&n, [0, 5, 8, 14][rt::choice(4)], &mut r);
        rt::reach(1);
        check!(res.is_err(), "an error was swallowed");
        check!(r.after_fail == 0, "streaming went on after an error");
    }
    fn h_core_lower_broken() {
        let n = crate::shapes::breaking();
        let mut r = Min(Rec::new(MERGED));
        rt::reach(1);
        check!(n.stream(&mut r).is_err(), "an error was swallowed");
    }
    fn h_core_forward_fault_full() { forward_fault_node(crate::shapes::faulty_less(), 12) }
    fn h_core_forward_broken_full() {
        let n = crate::shapes::breaking();
        let mut r = Rec::new(EXACT);
        rt::reach(1);
        check!(stream_to(&n, rt::choice(17), &mut r).is_err(), "an error was swallowed");
    }

    /// references, boxes, wrapped streams, nested and computed values
    fn h_core_forward() { forward(Gen { nodes: 2, kinds: ALL, hdr: H::Label, plain: false, max_children: 1, ..Gen::default() }, true) }
    fn h_core_forward_hdr() { forward(Gen { nodes: 2, kinds: HEADED, hdr: H::All, plain: false, value_tags: true, max_children: 1, ..Gen::default() }, true) }
    fn h_core_forward_hints() { forward(Gen { nodes: 2, kinds: HEADED, hdr: H::LabelIndex, plain: false, sizes: true, label_tags: true, max_children: 1, ..Gen::default() }, true) }
    /// the hints are not acted upon, so they needn't be true
    fn h_core_forward_size() { forward_node(crate::shapes::any_size(), true) }
    fn h_core_forward_full() { forward_node(crate::shapes::full_within(), true) }
    fn h_core_forward_big() { forward_node(crate::shapes::big_upto(rt::choice(crate::shapes::BIG), 1100, 300, 260, false, true), true) }
    fn h_core_forward_huge() { forward_node(crate::shapes::huge(66_000, 66_000), true) }
    fn h_core_lower_huge() { lowered_node(crate::shapes::huge(66_000, 20_000)) }
    fn h_core_lower_big() { lowered_node(crate::shapes::big_upto(rt::choice(crate::shapes::BIG), 1100, 300, 260, false, true)) }
    fn h_core_forward_leaf() { forward_node(crate::shapes::leaf_within(), true) }
    fn h_core_forward_all() { forward(Gen { nodes: 2, kinds: HEADED, hdr: H::All, plain: false, sizes: true, label_tags: true, value_tags: true, max_children: 1, ..Gen::default() }, true) }
    fn h_core_forward3() { forward(Gen { nodes: 3, kinds: MAIN, hdr: H::Label, plain: false, max_children: 2, ..Gen::default() }, true) }
    fn h_core_forward_fault() { forward_fault(Gen { nodes: 2, kinds: MAIN, hdr: H::Label, max_children: 1, ..Gen::default() }) }
    /// error values fail through every wrapper
    fn h_core_forward_broken() {
        let n = match rt::choice(3) {
            0 => Node::Broken,
            1 => Node::Seq(None, vec![Node::Null, Node::Broken]),
            _ => Node::Tagged(Hdr::default(), Box::new(Node::ByValue(Box::new(Node::Broken)))),
        };
        let mut r = Rec::new(EXACT);
        rt::reach(1);
        check!(stream_to(&n, rt::choice(17), &mut r).is_err(), "an error was swallowed");
    }

    /// conversions between integers
    fn h_core_cast_int() {
        each_int!(v => {
            #[allow(unused_comparisons)]
            let neg = v < 0;
            let bits = v as i128 as u128;
            rt::reach(1);
            let n = int_node(neg, bits);
            match rt::choice(2) {
                0 => wrapped(v, &|c| c.int(neg, bits)),
                _ => wrapped(Plain(&n), &|c| c.int(neg, bits)),
            }
        })
    }
    /// conversions of everything else
    fn h_core_cast_other() {
        rt::reach(1);
        match rt::choice(7) {
            0 => { let v = rt::bool_(); wrapped(v, &|c| { check!(c.other() == (Some(v), None, None, None, None), "a boolean converts wrongly"); c.no_ints() }) }
            1 => {
                let v = rt::f64_();
                wrapped(v, &|c| { let o = c.other(); check!((o.0, o.2, o.3, o.4) == (None, Some(v.to_bits()), None, None), "a float converts wrongly"); c.no_ints() })
            }
            2 => {
                let v = rt::f32_();
                rt::assume(!v.is_nan());
                wrapped(v, &|c| { let o = c.other(); check!((o.0, o.1, o.3, o.4) == (None, Some(v.to_bits()), None, None), "a float converts wrongly"); 
                    check!(o.2.is_none() || o.2 == Some((v as f64).to_bits()), "a float widens wrongly"); c.no_ints() })
            }
            3 => { let v = rt::ascii(2); wrapped(v, &|c| { check!(c.other() == (None, None, None, Some(v), None), "text converts wrongly"); c.no_ints() }) }
            4 => { let v = rt::ascii(2); wrapped(v.to_owned(), &|c| { check!(c.other() == (None, None, None, Some(v), None), "text converts wrongly"); c.no_ints() }) }
            5 => { let b = rt::leak_bytes(2); wrapped(sval::BinarySlice::new(b), &|c| { check!(c.other() == (None, None, None, None, Some(b)), "binary converts wrongly"); c.no_ints() }) }
            _ => { let v: [u8; 2] = rt::bytes(); let b = sval::BinaryArray::new(&v); wrapped(b, &|c| { check!(c.other() == (None, None, None, None, Some(&v[..])), "binary converts wrongly"); c.no_ints() }) }
        }
    }
    /// wrappers answer with what the value itself answers, whatever that is
    fn h_core_cast_odd() {
        let o = crate::shapes::Odd::any();
        rt::reach(1);
        o.agrees(&&o);
        o.agrees(&Box::new(&o));
        o.converts(&Some(&o));
        o.converts(&Box::new(Some(&o)));
    }
    /// the default conversions of any value never invent or lose data
    fn h_core_cast_default() {
        let mut g = Gen { nodes: 3, kinds: &[K::Null, K::Bool, K::F64, K::Frags, K::BinFrags, K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record, K::ByValue, K::ByComputed],
            hdr: H::None, plain: false, max_children: 1, ..Gen::default() };
        let n = g.value();
        convert(&n);
    }
    /// text and binary in up to four pieces, empty ones included
    fn h_core_cast_frags() {
        convert(&crate::shapes::fragments(4));
    }
    fn h_core_cast_long() {
        let n = crate::shapes::big_upto(rt::choice(3), 1100, 300, 33, false, true);
        convert(&if rt::flag() { Node::Tagged(Hdr::default(), Box::new(n)) } else { n });
    }
    /// the tag of a value is its outermost tag
    fn h_core_value_tag() {
        let mut g = Gen { nodes: 3, kinds: &[K::Null, K::Bool, K::Int, K::F64, K::Text, K::Bin, K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record, K::Tuple, K::RecordTuple, K::ByValue, K::Hint],
            hdr: H::All, label_len: 0, max_children: 1, ..Gen::default() };
        let n = g.value();
        rt::reach(1);
        let want = tag_code(outer_tag(&n).as_ref());
        let p = Plain(&n);
        check!(tag_code(Value::tag(&p).as_ref()) == want, "not the outermost tag");
        check!(tag_code(Value::tag(&&p).as_ref()) == want, "not the outermost tag through a reference");
        check!(tag_code(Value::tag(&Box::new(p)).as_ref()) == want, "not the outermost tag through a box");
    }

    /// indexes: any constructor, any accessor
    fn h_core_index() {
        let (i, neg, bits) = any_index();
        rt::reach(1);
        let i = if rt::flag() { i.with_tag(&T1) } else { i };
        let j = i.clone();
        check!(i == j && i.tag() == j.tag(), "a clone differs");
        casts_agree!(i, neg, bits, to_i32 i32, to_i64 i64, to_isize isize, to_u32 u32, to_u64 u64, to_usize usize,);
    }
    /// equality, order and hash of indexes are those of the numbers
    fn h_core_index_cmp() {
        let (a, _, x) = any_index();
        let (b, _, y) = any_index();
        let b = if rt::flag() { b.with_tag(&T2) } else { b };
        rt::reach(1);
        let (x, y) = (x as i128, y as i128);
        check!((a == b) == (x == y), "equality isn't that of the numbers");
        check!(a.cmp(&b) == x.cmp(&y) && a.partial_cmp(&b) == Some(x.cmp(&y)), "order isn't that of the numbers");
        if a == b {
            check!(hashed(&a) == hashed(&b), "equal indexes hash differently");
        }
    }
    fn h_core_index_display() {
        let v = match rt::choice(3) { 0 => rt::u8_() as i64, 1 => -(rt::u8_() as i64), _ => i64::MIN + rt::u8_() as i64 };
        rt::reach(1);
        check!(Index::new_i64(v).to_string().as_bytes() == &decimal(v < 0, v as i128 as u128)[..], "displayed as another number");
    }
    /// labels through every history of clones and conversions
    fn h_core_label() {
        let n = rt::choice(3);
        let s = rt::ascii(n);
        let (mut l, is_static) = any_label(s);
        let tag = match rt::choice(3) { 0 => None, 1 => Some(T1), _ => Some(sval::tags::VALUE_IDENT) };
        if let Some(t) = &tag {
            l = l.with_tag(t);
        }
        for _ in 0..rt::choice(4) {
            l = label_step(l);
        }
        rt::reach(1);
        check!(l.as_str() == s, "the label's text changed");
        check!(l.as_static_str() == if is_static { Some(s) } else { None }, "the label's static text is wrong");
        check!(l.tag() == tag.as_ref(), "the label's tag changed");
        rt::obs(l.as_str().as_bytes());
    }
    fn h_core_label_long() {
        let len = [23, 40, 260, 1030][rt::choice(4)];
        let s = crate::shapes::spotted(len);
        let (mut l, is_static) = any_label(s);
        if rt::flag() {
            l = l.with_tag(&T1);
        }
        for _ in 0..rt::choice(3) {
            l = label_step(l);
        }
        rt::reach(1);
        check!(l.as_str() == s, "the label's text changed");
        check!(l.as_static_str() == if is_static { Some(s) } else { None }, "the label's static text is wrong");
        // another that differs, if at all, in one character
        let mut other = s.as_bytes().to_vec();
        let at = [0, len / 2, len - 1][rt::choice(3)];
        if rt::flag() {
            other[at] ^= 1;
        } else if rt::flag() {
            other.pop();
        }
        let other = unsafe { String::from_utf8_unchecked(other) };
        let o = match rt::flag() { true => Label::new_computed(&other), false => Label::new_owned(other.clone()) };
        check!((l == o) == (s == other), "equality isn't that of the text");
        check!(l != o || hashed(&l) == hashed(&o), "equal labels hash differently");
    }
    /// a computed label's owned copy survives what it borrowed from
    fn h_core_label_owned() {
        let b: [u8; 2] = rt::bytes();
        rt::assume(b[0] < 0x80 && b[1] < 0x80);
        let s: String = std::str::from_utf8(&b).unwrap().to_owned();
        let (owned, other) = {
            let l = Label::new_computed(&s);
            let l = if rt::flag() { l.with_tag(&T1) } else { l };
            let k = l.clone();
            match rt::choice(3) {
                0 => (l.to_owned(), k.to_owned()),
                1 => (l.try_to_owned().unwrap(), Label::new_owned(s.clone())),
                _ => { let o = k.to_owned(); (o.clone(), o) }
            }
        };
        drop(s);
        rt::reach(1);
        check!(owned.as_str().as_bytes() == &b && other.as_str().as_bytes() == &b, "an owned label changed");
        check!(owned == other && hashed(&owned) == hashed(&other), "equal labels differ");
        drop(other);
        check!(owned.as_str().as_bytes() == &b, "an owned label changed");
    }
    fn h_core_label_cmp() {
        let (a, b) = (rt::choice(3), rt::choice(3));
        let (x, y) = (rt::ascii(a), rt::ascii(b));
        let (a, _) = any_label(x);
        let (b, _) = any_label(y);
        let b = if rt::flag() { b.with_tag(&T2) } else { b };
        rt::reach(1);
        check!((a == b) == (x == y), "equality isn't that of the text");
        if a == b {
            check!(hashed(&a) == hashed(&b), "equal labels hash differently");
        }
        check!(hashed(&a) == hashed(x), "a label hashes differently from its text");
        check!(std::borrow::Borrow::<str>::borrow(&b) == y, "a label borrows as other text");
    }
    /// tags are equal exactly if their identifiers are
    fn h_core_tag() {
        let (a, b) = (rt::choice(3), rt::choice(2));
        let (x, y) = (rt::ascii(a), rt::ascii(b));
        let (a, b) = (Tag::new(x), Tag::new(y));
        rt::reach(1);
        check!((a == b) == (x == y), "equality isn't that of the identifiers");
        check!(a.clone() == a, "a clone differs");
    }
    fn h_core_tag_long() {
        let n = [4, 7, 8, 12, 15, 17][rt::choice(6)];
        let mut v = vec![b'k'; n];
        let mut w = v.clone();
        let at = rt::choice(n);
        v[at] = rt::u8_() & 0x7f;
        w[at] = if rt::flag() { v[at] } else { b'!' };
        let x: &'static str = std::str::from_utf8(Box::leak(v.into_boxed_slice())).unwrap();
        let y: &'static str = std::str::from_utf8(Box::leak(w.into_boxed_slice())).unwrap();
        rt::reach(1);
        check!((Tag::new(x) == Tag::new(y)) == (x == y), "equality isn't that of the identifiers");
    }
    /// the built-in tags are all different
    fn h_core_tags() {
        use sval::tags::*;
        let t = [RUST_OPTION_SOME, RUST_OPTION_NONE, RUST_UNIT, NUMBER, CONSTANT_SIZE, VALUE_IDENT, VALUE_OFFSET];
        let (i, j) = (rt::choice(7), rt::choice(7));
        rt::reach(1);
        check!((t[i] == t[j]) == (i == j), "two built-in tags are equal");
    }

    /// primitives, text and options
    fn h_core_std_scalar() {
        match rt::choice(12) {
            0 => expect(&(), &Node::Tag(Hdr { tag: Some(sval::tags::RUST_UNIT), ..Hdr::default() })),
            1 => { let v = rt::bool_(); expect(&v, &Node::Bool(v)) }
            2 => {
                let v = rt::u32_();
                if let Some(c) = char::from_u32(v) {
                    let mut b = [0; 4];
                    let e: &str = c.encode_utf8(&mut b);
                    let s: &'static str = Box::leak(e.to_owned().into_boxed_str());
                    expect(&c, &Node::Text(Some(s.len()), vec![(true, s)]))
                }
            }
            3 => { let n = rt::choice(4); let s = rt::ascii(n); expect(s, &text(s)) }
            4 => { let n = rt::choice(4); let s = rt::ascii(n); expect(&s.to_owned(), &text(s)) }
            5 => expect(&sval::Null, &Node::Null),
            6 => { let v = rt::i64_(); expect(&Some(v), &some(Node::I64(v))) }
            7 => expect(&None::<u8>, &none()),
            8 => { let v = rt::u16_(); let o = if rt::flag() { Some(Some(v)) } else { Some(None) }; expect(&o, &some(match o { Some(Some(v)) => some(Node::U16(v)), _ => none() })) }
            9 => {
                let (a, b) = (rt::choice(2), rt::choice(3));
                let p = Parts(rt::ascii(a), rt::ascii(b));
                let want = Node::Text(None, vec![(true, p.0), (true, p.1)]);
                match rt::choice(6) {
                    0 => expect(&sval::Display::new(&p), &want),
                    1 => expect(sval::Display::new_borrowed(&p), &want),
                    2 => {
                        let w = Node::Text(None, vec![(false, "x"), (true, p.0), (true, p.1), (false, "x")]);
                        expect(&Within("x", p), &w)
                    }
                    3 => {
                        let h = Hdr { tag: Some(sval::tags::NUMBER), ..Hdr::default() };
                        expect(&Num(p), &Node::Tagged(h, Box::new(want)))
                    }
                    4 => {
                        let mut r = Rec::new(EXACT);
                        let h = Half(p);
                        let res = match rt::choice(3) {
                            0 => sval::stream_display(&mut r, &h),
                            1 => sval::stream_number(&mut r, &h),
                            _ => sval::Display::new(&h).stream(&mut r),
                        };
                        check!(res.is_err(), "a formatting error was swallowed");
                    }
                    _ => {
                        let mut r = Rec::new(EXACT);
                        check!(sval::stream_display(&mut r, &p).is_ok(), "streaming failed");
                        let (w, _) = record(EXACT, &want);
                        rt::reach(1);
                        same(&w, &r, "not the documented stream");
                    }
                }
            }
            10 => { let v = rt::f64_(); expect(&v, &Node::F64(v)) }
            _ => each_int!(v => { 
                #[allow(unused_comparisons)]
                let neg = v < 0;
                let (w, _) = record(EXACT, &v);
                let (g, _) = record(EXACT, &Box::new(&v));
                let mut s = S128(Got::default());
                check!(v.stream(&mut s).is_ok(), "streaming failed");
                got(&s.0, neg, v as i128 as u128);
                same(&w, &g, "not the documented stream") }),
        }
    }
    /// sequences, maps, tuples, binary
    fn h_core_std_compound() {
        let n = rt::choice(4);
        let items = rt::leak_bytes(n);
        let nodes: Vec<Node> = items.iter().map(|b| Node::U8(*b)).collect();
        match rt::choice(11) {
            0 => expect(items, &Node::Seq(Some(n), nodes)),
            1 => expect(&items.to_vec(), &Node::Seq(Some(n), nodes)),
            2 => { let a = [rt::i16_(), 3]; expect(&a, &constant(Node::Seq(Some(2), vec![Node::I16(a[0]), Node::I16(3)]))) }
            3 => expect(&[rt::bool_(); 0], &constant(Node::Seq(Some(0), vec![]))),
            4 => {
                let v: Vec<(u8, bool)> = items.iter().map(|b| (*b, *b > 9)).collect();
                let m: Vec<(Node, Node)> = v.iter().map(|(k, v)| (Node::U8(*k), Node::Bool(*v))).collect();
                expect(sval::MapSlice::new(&v), &Node::Map(Some(n), m));
                check!(sval::MapSlice::new(&v).as_slice() == &v[..], "not the same entries");
            }
            5 => expect(sval::BinarySlice::new(items), &Node::Bin(Some(n), vec![(false, items)])),
            6 => {
                let a: &'static [u8; 3] = Box::leak(Box::new(rt::bytes::<3>()));
                expect(sval::BinaryArray::new(a), &constant(Node::Bin(Some(3), vec![(false, &a[..])])))
            }
            7 => {
                let (a, b) = (rt::choice(3) as u8, 10 + rt::choice(2) as u8);
                let (x, y) = (rt::u8_(), rt::u8_());
                let m: BTreeMap<u8, u8> = [(b, y), (a, x)].into_iter().collect();
                expect(&m, &Node::Map(Some(2), vec![(Node::U8(a), Node::U8(x)), (Node::U8(b), Node::U8(y))]))
            }
            8 => {
                let mut m: HashMap<u8, u8, NoHash> = HashMap::with_hasher(NoHash);
                let x = rt::u8_();
                if n > 0 {
                    m.insert(3, x);
                }
                expect(&m, &if n > 0 { Node::Map(Some(1), vec![(Node::U8(3), Node::U8(x))]) } else { Node::Map(Some(0), vec![]) })
            }
            9 => { let v = vec![Some(rt::u8_()), None]; expect(&v, &Node::Seq(Some(2), vec![some(Node::U8(v[0].unwrap())), none()])) }
            _ => { let v = (items, rt::bool_(), "x"); expect(&v, &Node::Tuple(Hdr::default(), Some(3), vec![
                (None, Index::new(0).with_tag(&sval::tags::VALUE_OFFSET), Node::Seq(Some(n), nodes)),
                (None, Index::new(1).with_tag(&sval::tags::VALUE_OFFSET), Node::Bool(v.1)),
                (None, Index::new(2).with_tag(&sval::tags::VALUE_OFFSET), text("x")),
            ])) }
        }
    }
    fn h_core_std_tuple() {
        tuples!(1 + rt::choice(16);
            1 => (0), 2 => (0 1), 3 => (0 1 2), 4 => (0 1 2 3), 5 => (0 1 2 3 4), 6 => (0 1 2 3 4 5), 7 => (0 1 2 3 4 5 6),
            8 => (0 1 2 3 4 5 6 7), 9 => (0 1 2 3 4 5 6 7 8), 10 => (0 1 2 3 4 5 6 7 8 9), 11 => (0 1 2 3 4 5 6 7 8 9 10),
            12 => (0 1 2 3 4 5 6 7 8 9 10 11), 13 => (0 1 2 3 4 5 6 7 8 9 10 11 12), 14 => (0 1 2 3 4 5 6 7 8 9 10 11 12 13),
            15 => (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14), 16 => (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15),
        )
    }
    /// std values of more elements than a size threshold is likely to be
    fn h_core_std_long() {
        let n = [17, 33, 70, 260, 1030][rt::choice(5)];
        let mut items = vec![b'x'; n];
        items[[0, 15, 16, n / 2, n - 1][rt::choice(5)]] = rt::u8_() & 0x7f;
        let items: &'static [u8] = Box::leak(items.into_boxed_slice());
        let nodes = || items.iter().map(|b| Node::U8(*b)).collect::<Vec<Node>>();
        match rt::choice(8) {
            0 => expect(items, &Node::Seq(Some(n), nodes())),
            1 => expect(&items.to_vec(), &Node::Seq(Some(n), nodes())),
            2 => {
                let v: Vec<(u8, bool)> = items.iter().map(|b| (*b, true)).collect();
                let m = v.iter().map(|(k, v)| (Node::U8(*k), Node::Bool(*v))).collect();
                expect(sval::MapSlice::new(&v), &Node::Map(Some(n), m));
            }
            3 => expect(sval::BinarySlice::new(items), &Node::Bin(Some(n), vec![(false, items)])),
            4 => {
                let m: BTreeMap<u16, u8> = items.iter().enumerate().map(|(i, b)| (i as u16, *b)).collect();
                let e = items.iter().enumerate().map(|(i, b)| (Node::U16(i as u16), Node::U8(*b))).collect();
                expect(&m, &Node::Map(Some(n), e))
            }
            5 => {
                let s: &'static str = unsafe { core::str::from_utf8_unchecked(items) };
                expect(s, &Node::Text(Some(n), vec![(false, s)]))
            }
            6 => {
                let a: &'static [u8; 17] = items[..17].try_into().unwrap();
                expect(sval::BinaryArray::new(a), &constant(Node::Bin(Some(17), vec![(false, &a[..])])));
                expect(a, &constant(Node::Seq(Some(17), nodes()[..17].to_vec())))
            }
            _ => {
                let n = n.min(70);
                let mut m: HashMap<u8, u8, NoHash> = HashMap::with_hasher(NoHash);
                for (i, b) in items[..n].iter().enumerate() {
                    m.insert(i as u8, *b);
                }
                // in the map's own order
                let e = m.iter().map(|(k, v)| (Node::U8(*k), Node::U8(*v))).collect();
                expect(&m, &Node::Map(Some(n), e))
            }
        }
    }
    /// std values stop at the first error of the stream
    fn h_core_std_fault() {
        let at = rt::choice(16) as u32;
        let v = (vec![Some(rt::u8_()), None], "ab", [rt::bool_(); 2]);
        let (all, _) = record(EXACT, &v);
        let mut r = Rec::failing_at(EXACT, at);
        let res = v.stream(&mut r);
        rt::reach(1);
        check!(res.is_err() == (at < all.tokens), "an error was swallowed or invented");
        check!(r.after_fail == 0, "streaming went on after an error");
    }
}

fn int_node(neg: bool, bits: u128) -> Node {
    if neg {
        let v = bits as i128;
        match rt::choice(3) {
            0 => Node::I128(v),
            1 => { rt::assume(v >= i64::MIN as i128); Node::I64(v as i64) }
            _ => { rt::assume(v >= i8::MIN as i128); Node::I8(v as i8) }
        }
    } else {
        match rt::choice(4) {
            0 => Node::U128(bits),
            1 => { rt::assume(bits <= i128::MAX as u128); Node::I128(bits as i128) }
            2 => { rt::assume(bits <= u64::MAX as u128); Node::U64(bits as u64) }
            _ => { rt::assume(bits <= u16::MAX as u128); Node::U16(bits as u16) }
        }
    }
}

