//! Flattening values onto others.
use crate::node::{Gen, Hdr, Lab, Node, H, K};
use crate::rec::{record, same, Rec, MERGED};
use crate::shapes::{leaf, wide, within, LEAVES, PLACES};
use crate::{check, harnesses, rt};
use sval::{Index, Result, Stream, Tag, Value};

#[derive(Clone, Copy, PartialEq, Eq)]
enum To {
    Map,
    Seq,
    Record,
    Tuple,
    RecordTuple,
}

const TARGETS: [To; 5] = [To::Map, To::Seq, To::Record, To::Tuple, To::RecordTuple];

/// A container of the target kind: one own entry, the flattened value, another own entry.
struct Outer<'a> {
    to: To,
    offset: isize,
    inner: &'a Node,
    /// the offset that was returned
    end: std::cell::Cell<isize>,
}

impl<'a> Value for Outer<'a> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> Result {
        let a = sval::Label::new("first");
        let b = sval::Label::new("last");
        let i = Index::new(0);
        let end = match self.to {
            To::Map => {
                s.map_begin(None)?;
                s.map_key_begin()?;
                s.null()?;
                s.map_key_end()?;
                s.map_value_begin()?;
                s.null()?;
                s.map_value_end()?;
                let e = sval_flatten::flatten_to_map(&mut *s, self.inner, self.offset)?;
                s.map_key_begin()?;
                s.bool(true)?;
                s.map_key_end()?;
                s.map_value_begin()?;
                s.null()?;
                s.map_value_end()?;
                s.map_end()?;
                e
            }
            To::Seq => {
                s.seq_begin(None)?;
                s.seq_value_begin()?;
                s.null()?;
                s.seq_value_end()?;
                sval_flatten::flatten_to_seq(&mut *s, self.inner)?;
                s.seq_value_begin()?;
                s.bool(true)?;
                s.seq_value_end()?;
                s.seq_end()?;
                self.offset
            }
            To::Record => {
                s.record_begin(None, None, None, None)?;
                s.record_value_begin(None, &a)?;
                s.null()?;
                s.record_value_end(None, &a)?;
                let e = sval_flatten::flatten_to_record(&mut *s, self.inner, self.offset)?;
                s.record_value_begin(None, &b)?;
                s.null()?;
                s.record_value_end(None, &b)?;
                s.record_end(None, None, None)?;
                e
            }
            To::Tuple => {
                s.tuple_begin(None, None, None, None)?;
                s.tuple_value_begin(None, &i)?;
                s.null()?;
                s.tuple_value_end(None, &i)?;
                let e = sval_flatten::flatten_to_tuple(&mut *s, self.inner, self.offset)?;
                s.tuple_value_begin(None, &i)?;
                s.null()?;
                s.tuple_value_end(None, &i)?;
                s.tuple_end(None, None, None)?;
                e
            }
            To::RecordTuple => {
                s.record_tuple_begin(None, None, None, None)?;
                s.record_tuple_value_begin(None, &a, &i)?;
                s.null()?;
                s.record_tuple_value_end(None, &a, &i)?;
                let e = sval_flatten::flatten_to_record_tuple(&mut *s, self.inner, self.offset)?;
                s.record_tuple_value_begin(None, &b, &i)?;
                s.null()?;
                s.record_tuple_value_end(None, &b, &i)?;
                s.record_tuple_end(None, None, None)?;
                e
            }
        };
        self.end.set(end);
        Ok(())
    }
}

// ---- what flattening means, on trees ----

struct Entry {
    tag: Option<Tag>,
    /// A map's key stays as it is when flattened onto a map
    key: Option<Node>,
    label: Lab,
    index: Index,
    value: Node,
}

fn leak(s: Vec<u8>) -> &'static str {
    unsafe { std::str::from_utf8_unchecked(Box::leak(s.into_boxed_slice())) }
}

fn decimal(v: i128, out: &mut Vec<u8>) {
    if v < 0 {
        out.push(b'-');
    }
    let mut v = v.unsigned_abs();
    let mut d = Vec::new();
    loop {
        d.push(b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            break;
        }
    }
    d.reverse();
    out.extend_from_slice(&d);
}

fn plain(s: &'static str) -> Lab {
    Lab { s, is_static: false, tag: None }
}

fn of_index(i: &Index) -> Lab {
    let mut s = Vec::new();
    match i.to_i64() {
        Some(v) => decimal(v as i128, &mut s),
        None => decimal(i.to_u64().unwrap() as i128, &mut s),
    }
    plain(leak(s))
}

/// Floats from a list.
fn float(v: f64, o: &mut Vec<u8>) {
    let t: &[u8] = if v.is_nan() {
        b"NaN"
    } else if v == f64::NEG_INFINITY {
        b"-inf"
    } else if v == 1.5 {
        b"1.5"
    } else if v == -0.25 {
        b"-0.25"
    } else {
        unreachable!()
    };
    o.extend_from_slice(t)
}

/// All scalars of a key, one after the other.
fn key_text(n: &Node, o: &mut Vec<u8>) {
    match n {
        Node::Null => o.extend_from_slice(b"null"),
        Node::Bool(v) => o.extend_from_slice(if *v { b"true" } else { b"false" }),
        Node::I64(v) => decimal(*v as i128, o),
        Node::U64(v) => decimal(*v as i128, o),
        Node::U8(v) => decimal(*v as i128, o),
        Node::I8(v) => decimal(*v as i128, o),
        Node::I128(v) => decimal(*v, o),
        Node::U16(v) => decimal(*v as i128, o),
        Node::I16(v) => decimal(*v as i128, o),
        Node::U32(v) => decimal(*v as i128, o),
        Node::I32(v) => decimal(*v as i128, o),
        Node::U128(v) => decimal(i128::try_from(*v).unwrap(), o),
        Node::F32(v) => float(*v as f64, o),
        Node::F64(v) => float(*v, o),
        Node::Text(_, f) => {
            for (_, f) in f {
                o.extend_from_slice(f.as_bytes());
            }
        }
        Node::Bin(_, f) => {
            for (_, f) in f {
                for b in *f {
                    decimal(*b as i128, o);
                }
            }
        }
        Node::Tag(h) => match (&h.label, &h.index) {
            (Some(l), _) => o.extend_from_slice(l.s.as_bytes()),
            (None, Some(i)) => o.extend_from_slice(of_index(i).s.as_bytes()),
            _ => o.extend_from_slice(b"null"),
        },
        Node::Tagged(_, v) | Node::Enum(_, Some(v)) | Node::Hint(_, v) | Node::ByValue(v) | Node::ByComputed(v) => key_text(v, o),
        Node::Enum(_, None) => (),
        Node::Seq(_, vs) => vs.iter().for_each(|v| key_text(v, o)),
        Node::Tuple(_, _, vs) => vs.iter().for_each(|(_, _, v)| key_text(v, o)),
        Node::Map(_, vs) => vs.iter().for_each(|(k, v)| {
            key_text(k, o);
            key_text(v, o)
        }),
        Node::Record(_, _, vs) => vs.iter().for_each(|(_, l, v)| {
            o.extend_from_slice(l.s.as_bytes());
            key_text(v, o)
        }),
        Node::RecordTuple(_, _, vs) => vs.iter().for_each(|(_, l, _, v)| {
            o.extend_from_slice(l.s.as_bytes());
            key_text(v, o)
        }),
        _ => unreachable!(),
    }
}

struct Alloc {
    start: isize,
    next: isize,
}

impl Alloc {
    fn index(&mut self, own: Option<&Index>) -> Index {
        let i = match own {
            None => Index::new_isize(self.next).with_tag(&sval::tags::VALUE_OFFSET),
            Some(i) => match (i.tag(), i.to_isize()) {
                (Some(&sval::tags::VALUE_OFFSET), Some(v)) => {
                    Index::new_isize(v + self.start).with_tag(&sval::tags::VALUE_OFFSET)
                }
                _ => i.clone(),
            },
        };
        self.next = i.to_isize().unwrap_or(self.next) + 1;
        i
    }
}

/// The entries a value contributes when it's flattened.
fn entries(n: &Node, in_enum: bool, a: &mut Alloc, out: &mut Vec<Entry>) {
    match n {
        Node::Map(_, vs) => {
            for (k, v) in vs {
                let mut t = Vec::new();
                key_text(k, &mut t);
                out.push(Entry { tag: None, key: Some(k.clone()), label: plain(leak(t)), index: a.index(None), value: v.clone() });
            }
        }
        Node::Seq(_, vs) => {
            for v in vs {
                let index = a.index(None);
                out.push(Entry { tag: None, key: None, label: of_index(&index), index, value: v.clone() });
            }
        }
        Node::Record(_, _, vs) => {
            for (t, l, v) in vs {
                out.push(Entry { tag: t.clone(), key: None, label: l.clone(), index: a.index(None), value: v.clone() });
            }
        }
        Node::Tuple(_, _, vs) => {
            for (t, i, v) in vs {
                let index = a.index(Some(i));
                out.push(Entry { tag: t.clone(), key: None, label: of_index(&index), index, value: v.clone() });
            }
        }
        Node::RecordTuple(_, _, vs) => {
            for (t, l, i, v) in vs {
                let index = a.index(Some(i));
                out.push(Entry { tag: t.clone(), key: None, label: l.clone(), index, value: v.clone() });
            }
        }
        // a variant that holds a value is an entry of its own
        Node::Tagged(h, v) if in_enum => {
            let index = a.index(h.index.as_ref());
            let label = h.label.clone().unwrap_or_else(|| of_index(&index));
            out.push(Entry { tag: None, key: None, label, index, value: (**v).clone() });
        }
        Node::Tagged(_, v) => entries(v, in_enum, a, out),
        Node::Enum(_, Some(v)) => entries(v, true, a, out),
        Node::Hint(_, v) | Node::ByValue(v) | Node::ByComputed(v) => entries(v, in_enum, a, out),
        // nothing to flatten
        _ => (),
    }
}

fn expected(to: To, inner: &Node, offset: isize) -> (Node, isize) {
    let mut a = Alloc { start: offset, next: offset };
    let mut es = Vec::new();
    entries(inner, false, &mut a, &mut es);
    let text = |l: &Lab| Node::Text(Some(l.s.len()), vec![(true, l.s)]);
    let first = plain("first");
    let last = plain("last");
    let zero = Index::new(0);
    let n = match to {
        To::Map => {
            let mut v = vec![(Node::Null, Node::Null)];
            for e in es {
                v.push((e.key.unwrap_or_else(|| text(&e.label)), e.value));
            }
            v.push((Node::Bool(true), Node::Null));
            Node::Map(None, v)
        }
        To::Seq => {
            let mut v = vec![Node::Null];
            v.extend(es.into_iter().map(|e| e.value));
            v.push(Node::Bool(true));
            Node::Seq(None, v)
        }
        To::Record => {
            let mut v = vec![(None, first, Node::Null)];
            v.extend(es.into_iter().map(|e| (e.tag, e.label, e.value)));
            v.push((None, last, Node::Null));
            Node::Record(Hdr::default(), None, v)
        }
        To::Tuple => {
            let mut v = vec![(None, zero.clone(), Node::Null)];
            v.extend(es.into_iter().map(|e| (e.tag, e.index, e.value)));
            v.push((None, zero, Node::Null));
            Node::Tuple(Hdr::default(), None, v)
        }
        To::RecordTuple => {
            let mut v = vec![(None, first, zero.clone(), Node::Null)];
            v.extend(es.into_iter().map(|e| (e.tag, e.label, e.index, e.value)));
            v.push((None, last, zero, Node::Null));
            Node::RecordTuple(Hdr::default(), None, v)
        }
    };
    (n, if to == To::Seq { offset } else { a.next })
}

fn expect(n: &Node, to: To, offset: isize) {
    let (want, end) = expected(to, n, offset);
    let (want, _) = record(MERGED, &want);
    let o = Outer { to, offset, inner: n, end: Default::default() };
    let (got, ok) = record(MERGED, &o);
    if crate::NOALLOC && !ok {
        return rt::reach(2);
    }
    check!(ok, "flattening failed");
    rt::reach(1);
    same(&want, &got, "the flattened value is not what its entries describe");
    check!(rt::eq(&o.end.get().to_le_bytes(), &end.to_le_bytes()), "the returned offset is wrong");
}

fn target() -> To {
    TARGETS[rt::choice(5)]
}

fn offset() -> isize {
    [1, 0, 9, -3, 1 << 40][rt::choice(5)]
}

/// Tuple indexes become tagged as offsets, or not.
fn retag(n: &mut Node, offset: bool) {
    if offset {
        match n {
            Node::Tuple(_, _, vs) => {
                for (k, (_, i, _)) in vs.iter_mut().enumerate() {
                    *i = Index::new(k).with_tag(&sval::tags::VALUE_OFFSET);
                }
            }
            Node::RecordTuple(_, _, vs) => {
                for (k, (_, _, i, _)) in vs.iter_mut().enumerate() {
                    *i = Index::new(k).with_tag(&sval::tags::VALUE_OFFSET);
                }
            }
            _ => (),
        }
    }
}

const ALL: &[K] = &[
    K::Null, K::I64, K::Frags, K::BinFrags, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Seq, K::Map, K::Record, K::Tuple, K::RecordTuple,
    K::Hint, K::ByValue, K::ByComputed,
];
const MAIN: &[K] = &[K::I64, K::Text, K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record, K::Tuple, K::RecordTuple];

harnesses! {
    /// anything onto anything
    fn h_flat_main() {
        let to = target();
        let n = Gen { nodes: 3, kinds: MAIN, hdr: H::Label, ..Gen::default() }.value();
        expect(&n, to, 1);
    }
    /// every method that streams a value, flattened or in every place of what is flattened
    fn h_flat_leaf() {
        let to = target();
        let x = leaf(rt::choice(LEAVES));
        let n = if rt::flag() { within(rt::choice(PLACES), x) } else { x };
        expect(&n, to, 1);
    }
    /// everything said about every kind of value, in every place
    fn h_flat_full() {
        let to = target();
        expect(&crate::shapes::full_within(), to, 1);
    }
    fn h_flat_full2() {
        let to = target();
        expect(&crate::shapes::full_twice(), to, 1);
    }
    /// every kind of value, all headers
    fn h_flat_all() {
        let to = target();
        let n = Gen { nodes: 2, kinds: ALL, small_bytes: true, hdr: H::LabelIndex, sizes: true, label_tags: true, value_tags: true, ..Gen::default() }.value();
        expect(&n, to, 1);
    }
    /// enums and tagged values at the root, several levels
    fn h_flat_enum() {
        let to = target();
        let n = Gen { nodes: 4, kinds: &[K::I64, K::Tag, K::Tagged, K::Enum, K::Record, K::Map], keys: &[K::Text, K::Tagged], hdr: H::Label, max_children: 1, ..Gen::default() }.value();
        expect(&n, to, 1);
    }
    /// nested containers, which must be left alone
    fn h_flat_nest() {
        let to = target();
        let n = Gen { nodes: 4, kinds: &[K::I64, K::Seq, K::Map, K::Record, K::Tuple], keys: &[K::I64, K::Seq, K::Map], hdr: H::None, ..Gen::default() }.value();
        expect(&n, to, 1);
    }
    /// complex map keys
    fn h_flat_key() {
        let to = [To::Map, To::Record, To::RecordTuple, To::Seq][rt::choice(4)];
        let k = Gen { nodes: 2, kinds: ALL, small_bytes: true, hdr: H::Label, ..Gen::default() }.value();
        let v = Gen { nodes: 1, kinds: &[K::I64, K::Map], ..Gen::default() }.value();
        let mut m = vec![(k, v)];
        if rt::flag() {
            m.push((Node::I64(7), Node::Null));
        }
        let n = Node::Map(None, m);
        expect(&n, to, 1);
    }
    /// keys that nest
    fn h_flat_key3() {
        let to = [To::Map, To::Record, To::Seq][rt::choice(3)];
        let k = Gen { nodes: 4, kinds: &[K::I64, K::Text, K::Seq, K::Map, K::Enum, K::Tagged, K::Record], hdr: H::None, max_children: 2, ..Gen::default() }.value();
        let m = vec![(k, Node::I64(rt::digit() as i64)), (Node::I64(7), Node::Null)];
        let n = Node::Map(None, m);
        expect(&n, to, 1);
    }
    /// scalar keys in full
    fn h_flat_key_scalar() {
        let to = [To::Record, To::RecordTuple, To::Map][rt::choice(3)];
        let k = match rt::choice(7) {
            0 => Node::I8(rt::i8_()),
            1 => Node::U8(rt::u8_()),
            2 => Node::Text(None, vec![(false, rt::ascii(2)), (true, rt::ascii(1))]),
            3 => Node::Bool(rt::flag()),
            4 => Node::U64(u64::MAX - rt::u8_() as u64),
            5 => Node::I128(i128::MIN + rt::u8_() as i128),
            _ => Node::Seq(None, vec![Node::I8(rt::i8_()), Node::Text(None, vec![(false, rt::ascii(1))]), Node::U8(9)]),
        };
        expect(&Node::Map(None, vec![(k, Node::Null), (Node::U8(1), Node::Null)]), to, 1);
    }
    /// offsets and indexes
    fn h_flat_index() {
        let to = target();
        let off = offset();
        let mut n = Gen { nodes: 3, kinds: &[K::I64, K::Seq, K::Map, K::Tuple, K::RecordTuple], keys: &[K::Text], hdr: H::None, value_tags: true, ..Gen::default() }.value();
        retag(&mut n, rt::flag());
        expect(&n, to, off);
    }
    /// any offset and any index that isn't an offset
    fn h_flat_index_any() {
        let off = rt::isize_();
        rt::assume(off > isize::MIN / 2 && off < isize::MAX / 2);
        let i = rt::isize_();
        rt::assume(i < isize::MAX / 2 && i > isize::MIN / 2);
        let offset = rt::flag();
        let index = if offset { Index::new_isize(i).with_tag(&sval::tags::VALUE_OFFSET) } else { Index::new_isize(i) };
        let want = if offset { i + off } else { i };
        let n = Node::RecordTuple(Hdr::default(), None, vec![(None, plain("a"), index, Node::Null), (None, plain("b"), Index::new(3), Node::Null)]);
        let o = Outer { to: To::RecordTuple, offset: off, inner: &n, end: Default::default() };
        let (got, ok) = record(MERGED, &o);
        check!(ok && got.complete(), "flattening failed");
        let e = Node::RecordTuple(Hdr::default(), None, vec![
            (None, plain("first"), Index::new(0), Node::Null),
            (None, plain("a"), if offset { Index::new_isize(want).with_tag(&sval::tags::VALUE_OFFSET) } else { Index::new_isize(want) }, Node::Null),
            (None, plain("b"), Index::new(3), Node::Null),
            (None, plain("last"), Index::new(0), Node::Null),
        ]);
        let (e, _) = record(MERGED, &e);
        rt::reach(1);
        same(&e, &got, "an index is wrong");
        check!(o.end.get() == 4, "the returned offset doesn't follow the last index");
        // entries without indexes count on from the offset
        let n = Node::Record(Hdr::default(), None, vec![(None, plain("a"), Node::Null), (None, plain("b"), Node::Null)]);
        let o = Outer { to: To::RecordTuple, offset: off, inner: &n, end: Default::default() };
        let (got, ok) = record(MERGED, &o);
        check!(ok && got.complete(), "flattening failed");
        let e = Node::RecordTuple(Hdr::default(), None, vec![
            (None, plain("first"), Index::new(0), Node::Null),
            (None, plain("a"), Index::new_isize(off).with_tag(&sval::tags::VALUE_OFFSET), Node::Null),
            (None, plain("b"), Index::new_isize(off + 1).with_tag(&sval::tags::VALUE_OFFSET), Node::Null),
            (None, plain("last"), Index::new(0), Node::Null),
        ]);
        let (e, _) = record(MERGED, &e);
        same(&e, &got, "an index is wrong");
        check!(o.end.get() == off + 2, "the returned offset doesn't follow the last index");
    }
    /// wide values
    fn h_flat_wide() {
        let to = target();
        let k = rt::choice(5);
        let n = wide([12, 40][rt::choice(2)], k);
        expect(&n, to, 1);
    }
    /// larger values, in fields of the flattened one and as flattened ones
    fn h_flat_huge() {
        let to = target();
        expect(&crate::shapes::huge(66_000, 5_000), to, 1);
    }
    fn h_flat_big() {
        let to = target();
        let k = rt::choice(crate::shapes::BIG);
        let n = crate::shapes::big_upto(k, 1100, 300, 260, false, true);
        expect(&n, to, 1);
    }
    /// two values flattened one after the other, and a value flattened into a flattened value
    fn h_flat_twice() {
        let to = [To::Map, To::Record, To::Tuple, To::RecordTuple][rt::choice(4)];
        let kinds: &'static [K] = &[K::I64, K::Seq, K::Map, K::Record, K::Tuple, K::Enum, K::Tagged];
        let a = Gen { nodes: 2, kinds, keys: &[K::Text], hdr: H::Label, max_children: 1, ..Gen::default() }.value();
        let b = Gen { nodes: 2, kinds, keys: &[K::Text], hdr: H::Label, max_children: 1, ..Gen::default() }.value();
        let t = Twice { to, a: &a, b: &b, nested: rt::flag() };
        let mut al = Alloc { start: 0, next: 0 };
        let mut es = Vec::new();
        entries(&a, false, &mut al, &mut es);
        let mut al = Alloc { start: al.next, next: al.next };
        entries(&b, false, &mut al, &mut es);
        let text = |l: &Lab| Node::Text(Some(l.s.len()), vec![(true, l.s)]);
        let want = match to {
            To::Map => Node::Map(None, es.into_iter().map(|e| (e.key.unwrap_or_else(|| text(&e.label)), e.value)).collect()),
            To::Record => Node::Record(Hdr::default(), None, es.into_iter().map(|e| (e.tag, e.label, e.value)).collect()),
            To::Tuple => Node::Tuple(Hdr::default(), None, es.into_iter().map(|e| (e.tag, e.index, e.value)).collect()),
            _ => Node::RecordTuple(Hdr::default(), None, es.into_iter().map(|e| (e.tag, e.label, e.index, e.value)).collect()),
        };
        let (want, _) = record(MERGED, &want);
        let (got, ok) = record(MERGED, &t);
        if crate::NOALLOC && !ok {
        return rt::reach(2);
    }
    check!(ok, "flattening failed");
        rt::reach(1);
        same(&want, &got, "two values flattened one after the other");
    }
    /// failing values and streams
    fn h_flat_fault() {
        let to = target();
        let mut n = Gen { nodes: 3, kinds: &[K::I64, K::Text, K::Seq, K::Map, K::Record, K::Tagged, K::Enum, K::Tuple], keys: &[K::Text], hdr: H::Label, max_children: 1, ..Gen::default() }.value();
        let broken = rt::flag();
        if broken {
            n = match rt::choice(3) {
                0 => Node::Seq(None, vec![n, Node::Broken]),
                1 => Node::Map(None, vec![(Node::Broken, n)]),
                _ => Node::Broken,
            };
            let o = Outer { to, offset: 1, inner: &n, end: Default::default() };
            let (_, ok) = record(MERGED, &o);
            check!(!ok, "a failing value was flattened without an error");
            rt::reach(2);
            return;
        }
        let o = Outer { to, offset: 1, inner: &n, end: Default::default() };
        let (all, _) = record(MERGED, &o);
        let at = rt::choice(24) as u32;
        let mut r = Rec::failing_at(MERGED, at);
        let e = o.stream(&mut r);
        check!(e.is_err() == (at < all.tokens), "a failing stream's error was lost or made up");
        check!(r.after_fail == 0, "streamed to after an error");
        rt::reach(1);
    }
    fn h_flat_fault_full() {
        let to = target();
        let n = match to { To::Map | To::RecordTuple => crate::shapes::faulty(), _ => crate::shapes::faulty_less() };
        let o = Outer { to, offset: 1, inner: &n, end: Default::default() };
        let (all, ok) = record(MERGED, &o);
        rt::assume(ok);
        let mut r = Rec::failing_at(MERGED, crate::shapes::fails_at(all.tokens));
        check!(o.stream(&mut r).is_err(), "a failing stream's error was lost");
        check!(r.after_fail == 0, "streamed to after an error");
        rt::reach(1);
    }
    fn h_flat_fault_big() {
        let to = target();
        let n = crate::shapes::faulty_big(260);
        let o = Outer { to, offset: 1, inner: &n, end: Default::default() };
        let (all, ok) = record(MERGED, &o);
        rt::assume(ok);
        let mut r = Rec::failing_at(MERGED, crate::shapes::fails_far(all.tokens as usize) as u32);
        check!(o.stream(&mut r).is_err(), "a failing stream's error was lost");
        check!(r.after_fail == 0, "streamed to after an error");
        rt::reach(1);
    }
    fn h_flat_broken() {
        let to = target();
        let n = crate::shapes::breaking();
        let o = Outer { to, offset: 1, inner: &n, end: Default::default() };
        let (_, ok) = record(MERGED, &o);
        check!(!ok, "a failing value was flattened without an error");
        rt::reach(1);
    }
}

struct Twice<'a> {
    to: To,
    a: &'a Node,
    b: &'a Node,
    nested: bool,
}

/// Flattens `a` and `b` onto a container of the kind.
struct Inner<'a>(&'a Twice<'a>);

impl<'a> Value for Inner<'a> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> Result {
        both(self.0, s)
    }
}

fn both<'sval, S: Stream<'sval> + ?Sized>(t: &'sval Twice<'sval>, s: &mut S) -> Result {
    match t.to {
        To::Map => {
            s.map_begin(None)?;
            let o = sval_flatten::flatten_to_map(&mut *s, t.a, 0)?;
            sval_flatten::flatten_to_map(&mut *s, t.b, o)?;
            s.map_end()
        }
        To::Record => {
            s.record_begin(None, None, None, None)?;
            let o = sval_flatten::flatten_to_record(&mut *s, t.a, 0)?;
            sval_flatten::flatten_to_record(&mut *s, t.b, o)?;
            s.record_end(None, None, None)
        }
        To::Tuple => {
            s.tuple_begin(None, None, None, None)?;
            let o = sval_flatten::flatten_to_tuple(&mut *s, t.a, 0)?;
            sval_flatten::flatten_to_tuple(&mut *s, t.b, o)?;
            s.tuple_end(None, None, None)
        }
        _ => {
            s.record_tuple_begin(None, None, None, None)?;
            let o = sval_flatten::flatten_to_record_tuple(&mut *s, t.a, 0)?;
            sval_flatten::flatten_to_record_tuple(&mut *s, t.b, o)?;
            s.record_tuple_end(None, None, None)
        }
    }
}

impl<'a> Value for Twice<'a> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> Result {
        if !self.nested {
            return both(self, s);
        }
        // the same, with both flattened as one value
        let i: &'static Inner<'static> = unsafe { &*(Box::leak(Box::new(Inner(std::mem::transmute::<&Twice, &'static Twice<'static>>(self)))) as *const _) };
        match self.to {
            To::Map => {
                s.map_begin(None)?;
                sval_flatten::flatten_to_map(&mut *s, i, 0)?;
                s.map_end()
            }
            To::Record => {
                s.record_begin(None, None, None, None)?;
                sval_flatten::flatten_to_record(&mut *s, i, 0)?;
                s.record_end(None, None, None)
            }
            To::Tuple => {
                s.tuple_begin(None, None, None, None)?;
                sval_flatten::flatten_to_tuple(&mut *s, i, 0)?;
                s.tuple_end(None, None, None)
            }
            _ => {
                s.record_tuple_begin(None, None, None, None)?;
                sval_flatten::flatten_to_record_tuple(&mut *s, i, 0)?;
                s.record_tuple_end(None, None, None)
            }
        }
    }
}
