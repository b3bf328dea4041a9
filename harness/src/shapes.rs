//! Shapes that are larger than the generator's trees: long text, deep chains, wide containers.
use crate::node::{Hdr, Lab, Node};
use crate::rt;

/// Text of `len` bytes: letters, except for up to two fully arbitrary ASCII bytes anywhere.
pub fn long_text(len: usize) -> &'static str {
    let mut v = vec![b'x'; len];
    let a = rt::choice(len);
    let b = a + rt::choice(len - a);
    v[a] = rt::u8_();
    rt::assume(v[a] < 0x80);
    if b != a {
        v[b] = rt::u8_();
        rt::assume(v[b] < 0x80);
    }
    std::str::from_utf8(Box::leak(v.into_boxed_slice())).unwrap()
}

/// Letters, except for one arbitrary ASCII byte anywhere.
pub fn one_byte_text(len: usize) -> &'static str {
    let mut v = vec![b'x'; len];
    v[rt::choice(len.min(255))] = {
        let b = rt::u8_();
        rt::assume(b < 0x80);
        b
    };
    std::str::from_utf8(Box::leak(v.into_boxed_slice())).unwrap()
}

/// A chain of containers around a digit: two kinds alternate, with a sibling before and after.
pub fn chain(depth: usize) -> Node {
    let kinds = [rt::choice(6), rt::choice(6)];
    let sib = rt::flag();
    let l = rt::letters(1);
    let lab = || Lab { s: l, is_static: false, tag: None };
    let mut n = Node::I64(rt::digit() as i64);
    for i in 0..depth {
        let k = kinds[i % 2];
        let mut around = Vec::new();
        if sib {
            around.push(Node::Null);
        }
        around.push(n);
        if sib {
            around.push(Node::Null);
        }
        n = match k {
            0 => Node::Seq(None, around),
            1 => Node::Map(None, around.into_iter().map(|v| (Node::Text(None, vec![(false, l)]), v)).collect()),
            2 => Node::Record(Hdr::default(), None, around.into_iter().map(|v| (None, lab(), v)).collect()),
            3 => Node::Tuple(Hdr::default(), None, around.into_iter().map(|v| (None, sval::Index::new(0), v)).collect()),
            4 => Node::Enum(Hdr::default(), Some(Box::new(Node::Tuple(Hdr { label: Some(lab()), ..Hdr::default() }, None,
                around.into_iter().map(|v| (None, sval::Index::new(0), v)).collect())))),
            _ => Node::Enum(Hdr { label: Some(lab()), ..Hdr::default() }, Some(Box::new(Node::Record(Hdr { label: Some(lab()), ..Hdr::default() }, None,
                around.into_iter().map(|v| (None, lab(), v)).collect())))),
        };
    }
    n
}


/// A container of `n` elements, all the same digit but for one arbitrary position.
pub fn wide(n: usize, kind: usize) -> Node {
    let at = rt::choice(n.min(255));
    let (a, b) = (rt::digit(), rt::digit());
    let l = rt::letters(1);
    let el = |i: usize| Node::I64(if i == at { b } else { a } as i64);
    let lab = || Lab { s: l, is_static: false, tag: None };
    match kind {
        0 => Node::Seq(None, (0..n).map(el).collect()),
        1 => Node::Map(None, (0..n).map(|i| (Node::Text(None, vec![(false, l)]), el(i))).collect()),
        2 => Node::Record(Hdr::default(), None, (0..n).map(|i| (None, lab(), el(i))).collect()),
        3 => Node::Tuple(Hdr::default(), None, (0..n).map(|i| (None, sval::Index::new(i), el(i))).collect()),
        _ => Node::RecordTuple(Hdr::default(), None, (0..n).map(|i| (None, lab(), sval::Index::new(i), el(i))).collect()),
    }
}

/// A value whose tag and conversions are all overridden with unrelated answers.
pub struct Odd {
    pub b: Option<bool>,
    pub f32: Option<f32>,
    pub f64: Option<f64>,
    pub i8: Option<i8>,
    pub i16: Option<i16>,
    pub i32: Option<i32>,
    pub i64: Option<i64>,
    pub i128: Option<i128>,
    pub u8: Option<u8>,
    pub u16: Option<u16>,
    pub u32: Option<u32>,
    pub u64: Option<u64>,
    pub u128: Option<u128>,
    pub text: Option<&'static str>,
    pub bin: Option<&'static [u8]>,
    pub tag: Option<sval::Tag>,
}

fn opt<T>(on: bool, f: impl FnOnce() -> T) -> Option<T> {
    if on {
        Some(f())
    } else {
        None
    }
}

impl Odd {
    pub fn any() -> Odd {
        let on = rt::flag();
        Odd {
            b: opt(on, rt::bool_),
            f32: opt(on, rt::f32_),
            f64: opt(on, rt::f64_),
            i8: opt(on, rt::i8_),
            i16: opt(on, rt::i16_),
            i32: opt(on, rt::i32_),
            i64: opt(on, rt::i64_),
            i128: opt(on, rt::i128_),
            u8: opt(on, rt::u8_),
            u16: opt(on, rt::u16_),
            u32: opt(on, rt::u32_),
            u64: opt(on, rt::u64_),
            u128: opt(on, rt::u128_),
            text: opt(on, || rt::ascii(1)),
            bin: opt(on, || rt::leak_bytes(1)),
            tag: opt(on, || crate::rec::T1),
        }
    }

    /// All the answers of `v` are this value's.
    pub fn agrees<V: sval::Value + ?Sized>(&self, v: &V) {
        self.converts(v);
        check!(crate::rec::tag_code(v.tag().as_ref()) == crate::rec::tag_code(self.tag.as_ref()), "wrong result of tag");
    }

    pub fn converts<V: sval::Value + ?Sized>(&self, v: &V) {
        macro_rules! each {
            ($($f:ident $x:ident,)*) => { $( check!(v.$f() == self.$x, concat!("wrong result of ", stringify!($f))); )* };
        }
        each!(to_bool b, to_i8 i8, to_i16 i16, to_i32 i32, to_i64 i64, to_i128 i128, to_u8 u8, to_u16 u16, to_u32 u32,
            to_u64 u64, to_u128 u128, to_text text, to_binary bin,);
        check!(v.to_f32().map(f32::to_bits) == self.f32.map(f32::to_bits), "wrong result of to_f32");
        check!(v.to_f64().map(f64::to_bits) == self.f64.map(f64::to_bits), "wrong result of to_f64");
    }
}

impl sval::Value for Odd {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.null()
    }
    fn tag(&self) -> Option<sval::Tag> {
        self.tag.clone()
    }
    fn to_bool(&self) -> Option<bool> {
        self.b
    }
    fn to_f32(&self) -> Option<f32> {
        self.f32
    }
    fn to_f64(&self) -> Option<f64> {
        self.f64
    }
    fn to_i8(&self) -> Option<i8> {
        self.i8
    }
    fn to_i16(&self) -> Option<i16> {
        self.i16
    }
    fn to_i32(&self) -> Option<i32> {
        self.i32
    }
    fn to_i64(&self) -> Option<i64> {
        self.i64
    }
    fn to_i128(&self) -> Option<i128> {
        self.i128
    }
    fn to_u8(&self) -> Option<u8> {
        self.u8
    }
    fn to_u16(&self) -> Option<u16> {
        self.u16
    }
    fn to_u32(&self) -> Option<u32> {
        self.u32
    }
    fn to_u64(&self) -> Option<u64> {
        self.u64
    }
    fn to_u128(&self) -> Option<u128> {
        self.u128
    }
    fn to_text(&self) -> Option<&str> {
        self.text
    }
    fn to_binary(&self) -> Option<&[u8]> {
        self.bin
    }
}

/// Whether labels are all static, so that there are fewer cases.
static STATIC_LABELS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn is_static() -> bool {
    STATIC_LABELS.load(std::sync::atomic::Ordering::Relaxed) || rt::flag()
}

fn some_label() -> Lab {
    Lab { s: rt::letters(1), is_static: is_static(), tag: None }
}

/// Values of every kind in every place, to fail at some call of.
pub fn faulty() -> Node {
    STATIC_LABELS.store(true, std::sync::atomic::Ordering::Relaxed);
    let by = rt::choice(3);
    let x = match rt::choice(2) {
        0 => leaf(rt::choice(LEAVES)),
        _ => full(rt::choice(FULLS), Node::U8(7)),
    };
    match by {
        0 => {
            let p = rt::choice(PLACES + 1);
            if p == PLACES { x } else { within(p, x) }
        }
        1 => Node::Seq(None, vec![Node::ByValue(Box::new(x)), Node::Null]),
        _ => Node::Seq(None, vec![Node::ByComputed(Box::new(x)), Node::Null]),
    }
}

/// Fewer of them.
pub fn faulty_less() -> Node {
    STATIC_LABELS.store(true, std::sync::atomic::Ordering::Relaxed);
    let x = match rt::choice(2) {
        0 => leaf(rt::choice(LEAVES)),
        _ => full(rt::choice(FULLS), Node::U8(7)),
    };
    match rt::choice(3) {
        0 => x,
        1 => Node::Seq(None, vec![Node::ByValue(Box::new(x)), Node::Null]),
        _ => Node::Seq(None, vec![Node::ByComputed(Box::new(x)), Node::Null]),
    }
}

/// Which call out of `tokens` fails.
pub fn fails_at(tokens: u32) -> u32 {
    let at = rt::choice(40) as u32;
    rt::assume(at < tokens);
    at
}

/// More bytes than 16 bits count, more elements or entries than 12 do.
pub fn huge(text: usize, binary: usize) -> Node {
    let kind = rt::choice(5);
    let n = match kind {
        0 => text,
        1 => binary,
        _ => 4_200,
    };
    let at = [n / 2, n - 1][rt::choice(2)];
    let el = |i: usize| if i == at { Node::I64(8) } else { Node::Null };
    match kind {
        0 => {
            let mut v = vec![b'x'; n];
            v[at] = rt::u8_();
            rt::assume(v[at] < 0x80);
            Node::Text(None, vec![(true, unsafe { std::str::from_utf8_unchecked(Box::leak(v.into_boxed_slice())) })])
        }
        1 => {
            let mut v = vec![b'x'; n];
            v[at] = rt::u8_();
            Node::Bin(None, vec![(true, Box::leak(v.into_boxed_slice()))])
        }
        2 => Node::Seq(Some(n), (0..n).map(el).collect()),
        3 => Node::Map(Some(n), (0..n).map(|i| (Node::Text(None, vec![(false, "k")]), el(i))).collect()),
        _ => Node::Tuple(Hdr::default(), Some(n), (0..n).map(|i| (None, sval::Index::new(i), el(i))).collect()),
    }
}

/// Any hint of a size, on anything that has one.
pub fn any_size() -> Node {
    let n = Some(rt::u64_() as usize);
    let x = || vec![Node::Null];
    let lab = Lab { s: "f", is_static: true, tag: None };
    match rt::choice(7) {
        0 => Node::Text(n, vec![(rt::flag(), "ab")]),
        1 => Node::Bin(n, vec![(rt::flag(), b"ab")]),
        2 => Node::Seq(n, x()),
        3 => Node::Map(n, vec![(Node::Null, Node::Null)]),
        4 => Node::Record(Hdr::default(), n, vec![(None, lab, Node::Null)]),
        5 => Node::Tuple(Hdr::default(), n, vec![(None, sval::Index::new(0), Node::Null)]),
        _ => Node::RecordTuple(Hdr::default(), n, vec![(None, lab, sval::Index::new(0), Node::Null)]),
    }
}

/// A large value, and which of its calls fails.
pub fn faulty_big(deepest: usize) -> Node {
    let k = [0, 2, 4, 5, 6][rt::choice(5)];
    big_upto(k, 260, 300, deepest, true, true)
}
pub fn fails_far(calls: usize) -> usize {
    let n = calls;
    let s = [n / 3, n / 2, n / 2 + 1, n.saturating_sub(3), n.saturating_sub(2), n.saturating_sub(1)];
    let at = s[rt::choice(s.len())];
    rt::assume(at < n);
    at
}

/// Values that fail somewhere inside, after a leaf or before any.
pub fn breaking() -> Node {
    STATIC_LABELS.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut x = Node::Broken;
    if rt::flag() {
        x = match rt::choice(4) {
            0 => Node::ByValue(Box::new(x)),
            1 => Node::ByComputed(Box::new(x)),
            2 => Node::Seq(None, vec![leaf(rt::choice(LEAVES)), x]),
            _ => Node::Map(None, vec![(Node::U8(1), leaf(rt::choice(LEAVES))), (x, Node::Null)]),
        };
    }
    match rt::choice(2) {
        0 => within(rt::choice(PLACES), x),
        _ => {
            let k = rt::choice(FULLS);
            rt::assume(k != 0 && k != 5 && k != 12);
            full(k, x)
        }
    }
}

/// How many kinds of leaf there are.
pub const LEAVES: usize = 36;

/// One value through every method of a stream that starts and finishes a value, with small payloads.
pub fn leaf(k: usize) -> Node {
    let d = || rt::digit();
    let lab = || Some(some_label());
    let idx = || Some(sval::Index::new(d() as usize));
    match k {
        0 => Node::Null,
        1 => Node::Bool(rt::bool_()),
        2 => Node::U8(d()),
        3 => Node::U16(d() as u16),
        4 => Node::U32(d() as u32),
        5 => Node::U64(d() as u64),
        6 => Node::U128(d() as u128),
        7 => Node::I8(d() as i8),
        8 => Node::I16(d() as i16),
        9 => Node::I32(d() as i32),
        10 => Node::I64(d() as i64),
        11 => Node::I128(d() as i128),
        12 => Node::F32(1.5),
        13 => Node::F64(-0.25),
        14 => Node::F32(f32::NEG_INFINITY),
        15 => Node::F64(f64::NAN),
        16 => Node::Text(None, vec![]),
        17 => Node::Text(Some(2), vec![(false, rt::letters(1)), (true, rt::letters(1))]),
        18 => Node::Bin(None, vec![]),
        19 => Node::Bin(Some(3), vec![(false, small_bytes(2)), (true, small_bytes(1))]),
        20 => Node::Tag(Hdr::default()),
        21 => Node::Tag(Hdr { label: lab(), ..Hdr::default() }),
        22 => Node::Tag(Hdr { index: idx(), ..Hdr::default() }),
        23 => Node::Enum(Hdr { label: lab(), ..Hdr::default() }, Some(Box::new(Node::Tag(Hdr { label: lab(), ..Hdr::default() })))),
        24 => Node::Seq(None, vec![]),
        25 => Node::Map(Some(0), vec![]),
        26 => Node::Record(Hdr { label: lab(), ..Hdr::default() }, None, vec![]),
        27 => Node::Tuple(Hdr { label: lab(), ..Hdr::default() }, Some(0), vec![]),
        28 => Node::RecordTuple(Hdr::default(), None, vec![]),
        29 => Node::Tagged(Hdr { tag: Some(sval::tags::NUMBER), ..Hdr::default() }, Box::new(Node::Text(None, vec![(true, "12"), (false, "3.5")]))),
        30 => Node::Tag(Hdr { tag: Some(sval::tags::RUST_OPTION_NONE), label: lab(), index: idx() }),
        31 => Node::Tagged(Hdr { tag: Some(sval::tags::RUST_OPTION_SOME), label: lab(), index: idx() }, Box::new(Node::U16(d() as u16))),
        32 => Node::Tag(Hdr { tag: Some(sval::tags::RUST_UNIT), label: None, index: None }),
        33 => Node::Enum(Hdr { label: lab(), ..Hdr::default() }, None),
        34 => Node::Text(None, vec![(true, rt::letters(1)), (false, ""), (false, rt::letters(2)), (true, rt::letters(2))]),
        _ => Node::Bin(None, vec![(true, small_bytes(1)), (false, &[]), (false, small_bytes(2)), (true, small_bytes(2))]),
    }
}

fn small_bytes(n: usize) -> &'static [u8] {
    let b: Vec<u8> = (0..n).map(|_| rt::digit()).collect();
    Box::leak(b.into_boxed_slice())
}

/// How many places there are for a value.
pub const PLACES: usize = 13;

/// `x` somewhere inside a value, with something before or after it.
pub fn within(place: usize, x: Node) -> Node {
    let d = || Node::I64(rt::digit() as i64);
    let t = || Node::Text(None, vec![(false, rt::letters(1))]);
    let i = |n: usize| sval::Index::new(n);
    let lab = || Some(some_label());
    match place {
        0 => Node::Seq(None, vec![x, d()]),
        1 => Node::Seq(Some(3), vec![d(), x, t()]),
        2 => Node::Map(None, vec![(t(), x), (t(), d())]),
        3 => Node::Record(Hdr::default(), None, vec![(None, some_label(), x), (None, some_label(), d())]),
        4 => Node::Tuple(Hdr::default(), None, vec![(None, i(0), x), (None, i(1), d())]),
        5 => Node::RecordTuple(Hdr::default(), None, vec![(None, some_label(), i(0), x), (None, some_label(), i(1), d())]),
        6 => Node::Seq(None, vec![Node::Enum(Hdr::default(), Some(Box::new(Node::Tagged(Hdr { label: lab(), ..Hdr::default() }, Box::new(x))))), d()]),
        7 => Node::Seq(None, vec![Node::Tagged(Hdr { label: lab(), ..Hdr::default() }, Box::new(x)), t()]),
        8 => Node::Map(None, vec![(x, d()), (t(), t())]),
        9 => Node::Enum(Hdr::default(), Some(Box::new(Node::Tuple(Hdr { label: lab(), ..Hdr::default() }, None, vec![(None, i(0), x), (None, i(1), t())])))),
        10 => Node::Enum(Hdr::default(), Some(Box::new(Node::Record(Hdr { label: lab(), ..Hdr::default() }, None, vec![(None, some_label(), d()), (None, some_label(), x)])))),
        11 => Node::Tuple(Hdr::default(), None, vec![(None, i(0), Node::Hint(crate::rec::T1, Box::new(x))), (None, i(1), d())]),
        _ => Node::Seq(None, vec![Node::Seq(None, vec![x]), t()]),
    }
}

/// Every leaf in every place.
pub fn leaf_within() -> Node {
    let x = leaf(rt::choice(LEAVES));
    within(rt::choice(PLACES), x)
}

/// Two leaves next to each other in every place of two neighbours.
pub fn two_leaves() -> Node {
    let (a, b) = (leaf(rt::choice(LEAVES)), leaf(rt::choice(LEAVES)));
    match rt::choice(3) {
        0 => Node::Seq(None, vec![a, b]),
        1 => Node::Map(None, vec![(Node::Text(None, vec![(false, rt::letters(1))]), a), (Node::Text(None, vec![(false, rt::letters(1))]), b)]),
        _ => Node::Enum(Hdr::default(), Some(Box::new(Node::RecordTuple(Hdr { label: Some(some_label()), ..Hdr::default() }, None,
            vec![(None, some_label(), sval::Index::new(0), a), (None, some_label(), sval::Index::new(1), b)])))),
    }
}

/// Text or binary in any number of pieces up to `max`, each borrowed or computed, empty or not.
pub fn fragments(max: usize) -> Node {
    let n = rt::choice(max + 1);
    let text = rt::flag();
    let mut t = Vec::new();
    let mut b = Vec::new();
    for _ in 0..n {
        let len = rt::choice(2);
        let computed = rt::flag();
        if text {
            t.push((computed, rt::ascii(len)));
        } else {
            b.push((computed, rt::leak_bytes(len) as &'static [u8]));
        }
    }
    if text {
        Node::Text(None, t)
    } else {
        Node::Bin(None, b)
    }
}

/// 128 bit values spread over the whole range, in windows of 256.
pub fn spread() -> u128 {
    let hi: u64 = [1, 3, 1 << 16, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX][rt::choice(8)];
    let lo: u64 = [0, u32::MAX as u64 - 100, i64::MAX as u64 - 100, u64::MAX - 255][rt::choice(4)];
    ((hi as u128) << 64 | lo as u128) + rt::u8_() as u128
}

/// How many kinds of `full` there are.
pub const FULLS: usize = 16;

/// A value with everything that can be said about it: tags, labels with tags, indexes with tags, sizes.
pub fn full(k: usize, x: Node) -> Node {
    use crate::rec::{T1, T2};
    let is_static = is_static();
    let lab = |t: sval::Tag| Lab { s: rt::letters(1), is_static, tag: Some(t) };
    let idx = || sval::Index::new(rt::digit() as usize).with_tag(&sval::tags::VALUE_OFFSET);
    let h = |t: sval::Tag| Hdr { tag: Some(t), label: Some(lab(T1)), index: Some(idx()) };
    let rec = |n: Node| Node::Record(h(T2), Some(2), vec![(Some(T1), lab(T2), n), (Some(T2), lab(T1), Node::Null)]);
    let tup = |n: Node| Node::Tuple(h(T2), Some(2), vec![(Some(T1), sval::Index::new(0).with_tag(&sval::tags::VALUE_OFFSET), n), (Some(T2), sval::Index::new(1), Node::Null)]);
    let rt_ = |n: Node| Node::RecordTuple(h(T2), Some(2), vec![
        (Some(T1), lab(T2), sval::Index::new(0), n), (Some(T2), lab(T1), sval::Index::new(1).with_tag(&sval::tags::VALUE_OFFSET), Node::Null)]);
    let enu = |n: Node| Node::Enum(h(T1), Some(Box::new(n)));
    match k {
        0 => Node::Tag(h(T1)),
        1 => Node::Tagged(h(T1), Box::new(x)),
        2 => rec(x),
        3 => tup(x),
        4 => rt_(x),
        5 => enu(Node::Tag(h(T2))),
        6 => enu(Node::Tagged(h(T2), Box::new(x))),
        7 => enu(rec(x)),
        8 => enu(tup(x)),
        9 => enu(rt_(x)),
        10 => enu(enu(Node::Tagged(h(T2), Box::new(x)))),
        11 => enu(enu(rec(x))),
        12 => Node::Enum(h(T2), None),
        13 => enu(enu(enu(tup(x)))),
        14 => Node::Seq(Some(2), vec![x, Node::Tag(h(T2))]),
        _ => Node::Map(Some(1), vec![(x, Node::Tag(h(T1)))]),
    }
}

/// One of them, alone or in every place.
pub fn full_within() -> Node {
    let x = full(rt::choice(FULLS), Node::U8(rt::digit()));
    let p = rt::choice(PLACES + 1);
    if p == PLACES {
        x
    } else {
        within(p, x)
    }
}

/// One inside another.
pub fn full_twice() -> Node {
    let x = full(rt::choice(FULLS), Node::U8(rt::digit()));
    full(rt::choice(FULLS), x)
}

/// Every leaf in every place, at the bottom of a nest of containers of one kind or of mixed ones.
pub fn deep_leaf(depth: usize) -> Node {
    let mut n = leaf_within();
    let kind = rt::choice(3);
    let lab = Lab { s: "f", is_static: true, tag: None };
    for i in 0..depth {
        n = match (kind, i % 4) {
            (0, _) | (2, 0) => Node::Seq(None, vec![n]),
            (1, _) | (2, 1) => Node::Map(None, vec![(Node::Text(None, vec![(false, "k")]), n)]),
            (_, 2) => Node::Record(Hdr::default(), None, vec![(None, lab.clone(), n)]),
            _ => Node::Enum(Hdr::default(), Some(Box::new(Node::Tuple(Hdr { label: Some(lab.clone()), ..Hdr::default() }, None,
                vec![(None, sval::Index::new(0), n)])))),
        };
    }
    n
}

/// A finite float of every exponent, with one of a few mantissas.
pub fn some_f32() -> f32 {
    let e = rt::choice(255) as u32;
    let m = [0, 1, 0x7fffff, 0x2aaaab][rt::choice(4)];
    f32::from_bits((rt::flag() as u32) << 31 | e << 23 | m)
}

pub fn some_f64() -> f64 {
    let e = (rt::choice(8) * 256 + rt::choice(256)) as u64;
    rt::assume(e < 2047);
    let m = [0, 1, (1 << 52) - 1, 0xaaaaaaaaaaaab][rt::choice(4)];
    f64::from_bits((m & 2) << 62 | e << 52 | m)
}

/// A place in something of `len` parts: its ends and around powers of two.
fn spot(len: usize, lean: bool) -> usize {
    if lean {
        return [0, len / 2, len - 1][rt::choice(3)];
    }
    let s: Vec<usize> = [0, 1, 7, 8, 31, 32, 127, 128, 255, 256, 1023, 1024, len - 1].into_iter().filter(|i| *i < len).collect();
    s[rt::choice(s.len())]
}

/// ASCII text of `len` with one arbitrary character at one of its places.
pub fn spotted(len: usize) -> &'static str {
    let mut v = vec![b'x'; len];
    v[spot(len, len > 300)] = {
        let b = rt::u8_();
        rt::assume(b < 0x80);
        b
    };
    unsafe { std::str::from_utf8_unchecked(Box::leak(v.into_boxed_slice())) }
}

pub const BIG: usize = 7;

/// Things larger than what size thresholds are likely to be: long text, binary, labels, many fragments, many
/// elements and deep nesting.
pub fn big(k: usize) -> Node {
    big_upto(k, 1100, 300, 260, false, false)
}

pub fn big_upto(k: usize, longest: usize, widest: usize, deepest: usize, is_static: bool, lean: bool) -> Node {
    let flag = || !lean && rt::flag();
    let lens: Vec<usize> = [260, 1030, longest].into_iter().filter(|l| *l <= longest).collect();
    match k {
        // text and binary in up to two fragments
        0 | 1 => {
            let len = lens[rt::choice(lens.len())];
            let mut v = vec![b'x'; len];
            v[spot(len, lean)] = rt::u8_();
            let v: &'static [u8] = Box::leak(v.into_boxed_slice());
            let cut = [0, len / 2][rt::choice(2)];
            let hint = if flag() { Some(len) } else { None };
            let (a, b) = (flag(), flag() || cut > 0);
            if k == 1 {
                return Node::Bin(hint, vec![(a, &v[..cut]), (b, &v[cut..])]);
            }
            for b in v.iter().filter(|b| **b != b'x') {
                rt::assume(*b < 0x80);
            }
            let s = unsafe { std::str::from_utf8_unchecked(v) };
            Node::Text(hint, vec![(a, &s[..cut]), (b, &s[cut..])])
        }
        // many fragments
        2 => {
            let n = [17, 70, 260][rt::choice(3)];
            let at = spot(n, lean);
            let c = rt::ascii(1);
            let computed = flag();
            Node::Text(None, (0..n).map(|i| (computed, if i == at { c } else { "yz" })).collect())
        }
        // long labels
        3 => {
            let n = [40, 260][rt::choice(2)];
            let mut v = vec![b'x'; n];
            v[[0, n / 2, n - 1][rt::choice(3)]] = {
                let b = rt::u8_();
                rt::assume(b.is_ascii_lowercase());
                b
            };
            let s = unsafe { std::str::from_utf8_unchecked(Box::leak(v.into_boxed_slice())) };
            let lab = || Lab { s, is_static, tag: None };
            let h = || Hdr { label: Some(lab()), ..Hdr::default() };
            let x = Node::I64(rt::digit() as i64);
            match rt::choice(5) {
                0 => Node::Record(h(), Some(1), vec![(None, lab(), x)]),
                1 => Node::RecordTuple(h(), Some(1), vec![(None, lab(), sval::Index::new(0), x)]),
                2 => Node::Enum(h(), Some(Box::new(Node::Tagged(h(), Box::new(x))))),
                3 => Node::Enum(h(), Some(Box::new(Node::Tag(h())))),
                _ => Node::Map(None, vec![(Node::Text(None, vec![(false, s)]), x)]),
            }
        }
        // many elements
        4 => {
            let wides: Vec<usize> = [130, 260, widest].into_iter().filter(|l| *l <= widest).collect();
            let n = wides[rt::choice(wides.len())];
            let at = spot(n, lean);
            let b = rt::digit();
            let el = |i: usize| Node::I64(if i == at { b } else { 7 } as i64);
            let lab = || Lab { s: "f", is_static, tag: None };
            let h = || Hdr { label: Some(Lab { s: "n", is_static, tag: None }), ..Hdr::default() };
            let hint = if flag() { Some(n) } else { None };
            match rt::choice(5) {
                0 => Node::Seq(hint, (0..n).map(el).collect()),
                1 => Node::Map(hint, (0..n).map(|i| (Node::Text(None, vec![(false, "k")]), el(i))).collect()),
                2 => Node::Record(h(), hint, (0..n).map(|i| (None, lab(), el(i))).collect()),
                3 => Node::Tuple(h(), hint, (0..n).map(|i| (None, sval::Index::new(i), el(i))).collect()),
                _ => Node::RecordTuple(h(), hint, (0..n).map(|i| (None, lab(), sval::Index::new(i), el(i))).collect()),
            }
        }
        // enums in enums, each with its own label and index
        6 => {
            let d = [4, 5, 8, 9, 17][rt::choice(5)];
            let x = Node::I64(rt::digit() as i64);
            let labels: &'static [u8] = b"abcdefghijklmnopqrstuvwxyz";
            let lab = |i: usize| Lab { s: unsafe { std::str::from_utf8_unchecked(&labels[i..i + 1]) }, is_static, tag: None };
            let h = |i: usize| Hdr { tag: None, label: Some(lab(i)), index: Some(sval::Index::new(i)) };
            let mut n = match rt::choice(5) {
                0 => Node::Tag(h(20)),
                1 => Node::Tagged(h(20), Box::new(x)),
                2 => Node::Record(h(20), Some(1), vec![(None, lab(21), x)]),
                3 => Node::Tuple(h(20), Some(1), vec![(None, sval::Index::new(0), x)]),
                _ => Node::Enum(h(20), None),
            };
            for i in (0..d).rev() {
                n = Node::Enum(h(i), Some(Box::new(n)));
            }
            match rt::choice(2) {
                0 => n,
                _ => Node::Seq(None, vec![n, Node::Null]),
            }
        }
        // deep nesting, with a value after each level
        _ => {
            let deeps = [33, deepest.max(33)];
            let d = deeps[rt::choice(deeps.len())];
            let kind = rt::choice(6);
            let x = Node::I64(rt::digit() as i64);
            let mut n = x.clone();
            let lab = || Lab { s: "f", is_static, tag: None };
            let h = || Hdr { label: Some(Lab { s: "n", is_static, tag: None }), ..Hdr::default() };
            let key = || Node::Text(None, vec![(false, "k")]);
            for i in 0..d {
                n = match if kind == 5 { i % 5 } else { kind } {
                    0 => Node::Seq(None, vec![n, x.clone()]),
                    1 => Node::Map(None, vec![(key(), n), (key(), x.clone())]),
                    2 => Node::Record(h(), None, vec![(None, lab(), n), (None, lab(), x.clone())]),
                    3 => Node::Tuple(h(), None, vec![(None, sval::Index::new(0), n), (None, sval::Index::new(1), x.clone())]),
                    _ => Node::Tagged(h(), Box::new(n)),
                };
            }
            n
        }
    }
}
