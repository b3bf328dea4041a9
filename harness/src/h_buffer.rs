//! Buffers: `ValueBuf`, `Value`, `TextBuf`, `BinaryBuf`.

use crate::node::*;
use crate::rec::*;
use crate::{check, harnesses, rt};
use std::fmt::Write as _;
use sval::Value as _;
use sval_buffer::{BinaryBuf, TextBuf, Value, ValueBuf};
use sval_ref::ValueRef as _;

const ALL: &[K] = &[
    K::Null, K::Bool, K::Int, K::F64, K::F32, K::Frags, K::BinFrags, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Seq,
    K::Map, K::Record, K::Tuple, K::RecordTuple, K::Hint, K::ByValue, K::ByComputed,
];
const HEADED: &[K] = &[K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record, K::Tuple, K::RecordTuple];
const MAIN: &[K] = &[K::I64, K::Text, K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record, K::Tuple, K::RecordTuple];
const NEST: &[K] = &[K::I64, K::Text, K::Enum, K::Tag, K::Seq, K::Map, K::Record];

/// What streaming `n` out of a buffer must record.
fn want(n: &Node) -> Rec {
    let (w, ok) = record(MERGED, n);
    check!(ok, "the value failed (harness)");
    w
}

fn is_same<V: sval::Value + ?Sized>(w: &Rec, v: &V) {
    let (g, ok) = record(MERGED, v);
    check!(ok, "streaming the buffered value failed");
    same(w, &g, "the buffered value isn't the value");
    rt::obs(&g.log);
}

fn buf(n: &Node) -> ValueBuf<'_> {
    match ValueBuf::collect(n) {
        Ok(b) => {
            check!(b.is_complete(), "a collected value is incomplete");
            b
        }
        Err(_) => rt::fail("buffering failed"),
    }
}

/// Through every way of buffering and of reading the buffer.
fn round(n: &Node, ways: usize) {
    let w = want(n);
    rt::reach(1);
    match rt::choice(ways) {
        0 => is_same(&w, &buf(n)),
        1 => {
            let b = match ValueBuf::collect_owned(n) {
                Ok(b) => b,
                Err(_) => rt::fail("buffering failed"),
            };
            check!(b.is_complete(), "a collected value is incomplete");
            is_same(&w, &b)
        }
        2 => is_same(&w, &buf(n).into_value()),
        3 => {
            let b = buf(n);
            let v = b.to_value();
            is_same(&w, &b);
            drop(b);
            is_same(&w, &v.clone())
        }
        4 => match buf(n).into_owned() {
            Ok(b) => {
                check!(b.is_complete(), "an owned value is incomplete");
                is_same(&w, &b)
            }
            Err(_) => rt::fail("owning failed"),
        },
        5 => match Value::collect(n).and_then(|v| v.into_owned()) {
            Ok(b) => is_same(&w, &b),
            Err(_) => rt::fail("owning failed"),
        },
        6 => match Value::collect_owned(n) {
            Ok(b) => is_same(&w, &b),
            Err(_) => rt::fail("buffering failed"),
        },
        7 => match sval_buffer::stream_to_value(n) {
            Ok(b) => {
                let mut r = Rec::new(MERGED);
                check!(b.stream_ref(&mut r).is_ok(), "streaming the buffered value failed");
                same(&w, &r, "the buffered value isn't the value");
                // buffered again
                let again = buf2(&b);
                is_same(&w, &again)
            }
            Err(_) => rt::fail("buffering failed"),
        },
        _ => match sval_buffer::stream_to_value_owned(n) {
            Ok(b) => {
                let mut r = Rec::new(MERGED);
                check!(b.into_value().stream_ref(&mut r).is_ok(), "streaming the buffered value failed");
                same(&w, &r, "the buffered value isn't the value")
            }
            Err(_) => rt::fail("buffering failed"),
        },
    }
}

fn buf2<'a>(b: &'a ValueBuf<'_>) -> ValueBuf<'a> {
    match ValueBuf::collect(b) {
        Ok(b) => b,
        Err(_) => rt::fail("buffering failed"),
    }
}

/// A chain of containers `depth` deep around `leaf`.
fn chain(depth: usize, leaf: Node) -> Node {
    let mut n = leaf;
    for i in 0..depth {
        n = match i % 6 {
            0 => Node::Seq(Some(2), vec![Node::Null, n]),
            1 => Node::Map(None, vec![(Node::Bool(true), n)]),
            2 => Node::Record(Hdr::default(), Some(1), vec![(None, Lab { s: "f", is_static: true, tag: None }, n)]),
            3 => Node::Tuple(Hdr::default(), Some(2), vec![(None, sval::Index::new(0), n), (None, sval::Index::new(1), Node::Null)]),
            4 => Node::Tagged(Hdr { label: Some(Lab { s: "t", is_static: true, tag: None }), ..Hdr::default() }, Box::new(n)),
            _ => Node::Map(Some(1), vec![(n, Node::Null)]),
        };
    }
    n
}

/// A value that owns what it lends.
struct Owner {
    text: String,
    bin: Vec<u8>,
    label: String,
    shape: usize,
}

impl sval::Value for Owner {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        let l = sval::Label::new_computed(&self.label);
        match self.shape {
            0 => s.value(self.text.as_str()),
            1 => s.value(sval::BinarySlice::new(&self.bin)),
            2 => s.tag(None, Some(&l), None),
            3 => {
                s.record_begin(None, Some(&l), None, Some(2))?;
                s.record_value_begin(None, &l)?;
                s.value(self.text.as_str())?;
                s.record_value_end(None, &l)?;
                s.record_value_begin(None, &sval::Label::new("b"))?;
                s.value(sval::BinarySlice::new(&self.bin))?;
                s.record_value_end(None, &sval::Label::new("b"))?;
                s.record_end(None, Some(&l), None)
            }
            4 => {
                s.map_begin(Some(1))?;
                s.map_key_begin()?;
                s.value(self.text.as_str())?;
                s.map_key_end()?;
                s.map_value_begin()?;
                s.seq_begin(None)?;
                s.seq_value_begin()?;
                s.binary_begin(None)?;
                s.binary_fragment(&self.bin[..1])?;
                s.binary_fragment(&self.bin[1..])?;
                s.binary_end()?;
                s.seq_value_end()?;
                s.seq_end()?;
                s.map_value_end()?;
                s.map_end()
            }
            5 => {
                s.enum_begin(None, Some(&l), None)?;
                s.record_tuple_begin(None, Some(&l), None, None)?;
                s.record_tuple_value_begin(None, &l, &sval::Index::new(0))?;
                s.text_begin(None)?;
                s.text_fragment(&self.text[..1])?;
                s.text_fragment(&self.text[1..])?;
                s.text_end()?;
                s.record_tuple_value_end(None, &l, &sval::Index::new(0))?;
                s.record_tuple_end(None, Some(&l), None)?;
                s.enum_end(None, Some(&l), None)
            }
            _ => {
                s.tagged_begin(None, Some(&l), None)?;
                s.tuple_begin(None, Some(&l), None, None)?;
                s.tuple_value_begin(None, &sval::Index::new(0))?;
                s.value(self.text.as_str())?;
                s.tuple_value_end(None, &sval::Index::new(0))?;
                s.tuple_end(None, Some(&l), None)?;
                s.tagged_end(None, Some(&l), None)
            }
        }
    }
}

fn owner() -> Owner {
    Owner {
        text: rt::ascii(2).to_owned(),
        bin: rt::leak_bytes(2).to_vec(),
        label: rt::ascii(1).to_owned(),
        shape: rt::choice(7),
    }
}

fn long_owner() -> Owner {
    let len = [23, 40, 260, 1030][rt::choice(4)];
    let s = crate::shapes::spotted(len);
    Owner { text: s.to_owned(), bin: s.as_bytes().to_vec(), label: s.to_owned(), shape: rt::choice(7) }
}

fn owned(o: Owner) {
    let (w, _) = record(MERGED, &o);
    let way = rt::choice(6);
    rt::reach(1);
    fn get<T>(r: std::result::Result<T, sval_buffer::Error>) -> T {
        match r {
            Ok(v) => v,
            Err(_) => rt::fail("buffering failed"),
        }
    }
    match way {
        0 => { let b = get(ValueBuf::collect_owned(&o)); drop(o); is_same(&w, &b) }
        1 => { let b = get(get(ValueBuf::collect(&o)).into_owned()); drop(o); is_same(&w, &b) }
        2 => { let b = get(get(Value::collect(&o)).into_owned()); drop(o); is_same(&w, &b) }
        3 => { let b = get(Value::collect_owned(&o)); drop(o); is_same(&w, &b) }
        4 => {
            let b = get(get(ValueBuf::collect(&o)).into_owned());
            drop(o);
            let v = b.to_value();
            drop(b);
            is_same(&w, &v)
        }
        _ => {
            let v = get(ValueBuf::collect(&o)).into_value();
            let k = get(v.clone().into_owned());
            is_same(&w, &v);
            drop(v);
            drop(o);
            is_same(&w, &k)
        }
    }
}

struct Parts(&'static str, &'static str, bool);

impl std::fmt::Display for Parts {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)?;
        f.write_str(self.1)?;
        if self.2 {
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}

/// Text whose fragments are separated by hints.
struct Hinted(&'static str, &'static str, bool);

impl sval::Value for Hinted {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        if self.2 {
            s.text_begin(None)?;
            s.tag_hint(&T1)?;
            s.text_fragment(self.0)?;
            s.tag_hint(&T2)?;
            s.text_fragment_computed(self.1)?;
            s.tag_hint(&T2)?;
            s.text_end()
        } else {
            s.binary_begin(None)?;
            s.tag_hint(&T1)?;
            s.binary_fragment(self.0.as_bytes())?;
            s.tag_hint(&T2)?;
            s.binary_fragment_computed(self.1.as_bytes())?;
            s.tag_hint(&T2)?;
            s.binary_end()
        }
    }
}

fn concat(n: &Node) -> Option<Vec<u8>> {
    match n {
        Node::Text(_, f) => Some(f.iter().flat_map(|f| f.1.as_bytes().iter().copied()).collect()),
        Node::Bin(_, f) => Some(f.iter().flat_map(|f| f.1.iter().copied()).collect()),
        Node::Tagged(_, v) | Node::Hint(_, v) | Node::ByValue(v) | Node::ByComputed(v) => concat(v),
        _ => None,
    }
}

harnesses! {
    /// what comes out of a buffer is what went in
    fn h_buf_all() { round(&Gen { nodes: 2, kinds: ALL, hdr: H::Label, plain: false, max_children: 2, ..Gen::default() }.value(), 9) }
    /// every method that streams a value, in every place a value can be
    fn h_buf_leaf() { round(&crate::shapes::leaf_within(), 2) }
    fn h_buf_deep_leaf() { round(&crate::shapes::deep_leaf(10), 1) }
    fn h_buf_big() { round(&crate::shapes::big(rt::choice(crate::shapes::BIG)), 2) }
    fn h_buf_huge() { round(&crate::shapes::huge(66_000, 66_000), 2) }
    fn h_buf_full() { round(&crate::shapes::full_within(), 2) }
    fn h_buf_full2() { round(&crate::shapes::full_twice(), 1) }
    fn h_buf_leaf2() { round(&crate::shapes::two_leaves(), 1) }
    fn h_buf_hdr() { round(&Gen { nodes: 2, kinds: HEADED, hdr: H::All, plain: false, sizes: true, label_tags: true, value_tags: true, max_children: 1, ..Gen::default() }.value(), 1) }
    fn h_buf_hdr_owned() { round(&Gen { nodes: 2, kinds: HEADED, hdr: H::All, plain: false, static_labels: true, value_tags: true, max_children: 1, ..Gen::default() }.value(), 9) }
    fn h_buf_main3() { round(&Gen { nodes: 3, kinds: MAIN, hdr: H::Label, plain: false, max_children: 3, ..Gen::default() }.value(), 2) }
    fn h_buf_nest() { round(&Gen { nodes: 5, kinds: NEST, hdr: H::None, plain: false, max_children: 2, ..Gen::default() }.value(), 1) }
    fn h_buf_nest6() { round(&Gen { nodes: 6, kinds: &[K::I64, K::Text, K::Enum, K::Seq, K::Map, K::Tuple], hdr: H::None, plain: false, max_children: 2, ..Gen::default() }.value(), 1) }
    fn h_buf_main4() { round(&Gen { nodes: 4, kinds: MAIN, hdr: H::LabelIndex, plain: false, max_children: 2, ..Gen::default() }.value(), 1) }
    fn h_buf_long() {
        let k = rt::choice(4);
        let len = [15, 127, 258, 33_000][k];
        let x = rt::u8_();
        let mut v: Vec<Node> = (0..len).map(|i| Node::U16(i as u16)).collect();
        v[len / 2] = Node::U8(x);
        let n = match rt::choice(3) {
            0 => Node::Seq(Some(len), v),
            1 => Node::Map(Some(len), v.into_iter().enumerate().map(|(i, v)| (Node::U32(i as u32), v)).collect()),
            _ => Node::Seq(None, vec![Node::Seq(Some(len), v), Node::U8(x)]),
        };
        round(&n, if len > 1000 { 1 } else { 5 })
    }
    fn h_buf_deep() {
        let d = [7, 17, 33, 70][rt::choice(4)];
        round(&chain(d, Node::U8(rt::u8_())), 5)
    }
    fn h_buf_long_text() {
        let len = [23, 64, 300][rt::choice(3)];
        let at = [0, len / 2, len - 1][rt::choice(3)];
        let mut b = vec![b'z'; len];
        b[at] = rt::u8_() & 0x7f;
        let b: &'static [u8] = Box::leak(b.into_boxed_slice());
        let s = unsafe { std::str::from_utf8_unchecked(b) };
        let cut = [0, 1, len / 2, len][rt::choice(4)];
        let c = rt::flag();
        let n = if rt::flag() {
            Node::Text(Some(len), vec![(false, &s[..cut]), (c, &s[cut..])])
        } else {
            Node::Bin(Some(len), vec![(false, &b[..cut]), (c, &b[cut..])])
        };
        round(&n, 5)
    }

    /// owned copies survive what they were buffered from
    fn h_buf_owned() { owned(owner()) }
    fn h_buf_owned_long() { owned(long_owner()) }
    fn h_buf_text_many() {
        let mut want = String::new();
        let mut t = TextBuf::new();
        let mut b = BinaryBuf::new();
        for i in 0..6 {
            let s = ["", "ab", "c", "defghijklmnopqrstuvwxyz", "0", "12"][i];
            let s = if i == 2 { rt::ascii(1) } else { s };
            match rt::choice(4) {
                0 => { want.push_str(s); check!(t.push_fragment(s).is_ok() && b.push_fragment(s.as_bytes()).is_ok(), "pushing failed") }
                1 => { want.push_str(s); check!(t.push_fragment_computed(s).is_ok() && b.push_fragment_computed(s.as_bytes()).is_ok(), "pushing failed") }
                2 => { t.clear(); b.clear(); want.clear() }
                _ => { t = t.clone(); b = b.clone() }
            }
        }
        rt::reach(1);
        check!(rt::eq(t.as_str().as_bytes(), want.as_bytes()), "not what was pushed");
        check!(rt::eq(b.as_slice(), want.as_bytes()), "not what was pushed");
        let (x, y) = (t.as_borrowed_str(), b.as_borrowed_slice());
        drop((t, b));
        check!(x.map_or(true, |x| x == want), "the borrowed text isn't what was pushed");
        check!(y.map_or(true, |y| y == want.as_bytes()), "the borrowed binary isn't what was pushed");
    }
    /// data lent for the value's lifetime outlives the buffer
    fn h_buf_borrow() {
        let mut g = Gen { nodes: 2, kinds: &[K::Frags, K::BinFrags, K::Seq, K::Map, K::Tagged], hdr: H::None, plain: false, max_children: 2, ..Gen::default() };
        let n = g.value();
        let mut keep = Keep(Vec::new());
        {
            let b = buf(&n);
            check!(b.stream_ref(&mut keep).is_ok(), "streaming the buffered value failed");
        }
        rt::reach(1);
        let mut all = Vec::new();
        for k in &keep.0 {
            all.extend_from_slice(k);
        }
        rt::obs(&all);
    }

    /// complete exactly when a whole value was buffered; cleared buffers are as new
    fn h_buf_complete() {
        let mut g = Gen { nodes: 3, kinds: &[K::Null, K::I64, K::Frags, K::BinFrags, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Seq, K::Map, K::Record, K::Tuple, K::RecordTuple, K::Hint], hdr: H::None, max_children: 1, ..Gen::default() };
        let n = g.value();
        let (all, _) = record(EXACT, &n);
        let total = all.tokens as usize;
        let cut = rt::choice(14);
        rt::assume(cut <= total);
        let mut c = Cut { inner: ValueBuf::new(), left: cut };
        check!(!c.inner.is_complete(), "an empty buffer is complete");
        let r = n.stream(&mut c);
        check!(r.is_ok() == (cut == total), "buffering failed or went on after a failure");
        let mut b = c.inner;
        if cut == total {
            rt::reach(1);
            check!(b.is_complete(), "a complete value is reported incomplete");
        } else {
            rt::reach(2);
            check!(!b.is_complete(), "a partial value is reported complete");
        }
        b.clear();
        check!(!b.is_complete(), "a cleared buffer is complete");
        let (e, _) = record(MERGED, &b);
        let (z, _) = record(MERGED, &Node::Null);
        same(&z, &e, "an empty buffer isn't null");
    }
    fn h_buf_complete_big() {
        let n = match rt::choice(2) {
            0 => crate::shapes::big_upto(rt::choice(crate::shapes::BIG), 300, 300, 260, true, true),
            _ => chain(300, Node::U8(7)),
        };
        let (all, _) = record(EXACT, &n);
        let mut c = crate::rec::Watch { inner: ValueBuf::new(), is_complete: |b| b.is_complete(), left: all.tokens as usize, wrong: false };
        check!(n.stream(&mut c).is_ok(), "buffering failed");
        check!(!c.wrong, "a partial value is reported complete or a complete one isn't");
        rt::reach(1);
    }
    fn h_buf_reuse() {
        let mut g = Gen { nodes: 2, kinds: &[K::I64, K::Frags, K::Bin, K::Enum, K::Tag, K::Seq, K::Map, K::Hint, K::Tuple], hdr: H::None, max_children: 1, ..Gen::default() };
        let a = g.value();
        g.nodes = 2;
        g.kinds = &[K::I64, K::Frags, K::Bin, K::Seq, K::Record, K::Enum, K::Hint, K::RecordTuple];
        let b = g.value();
        let w = want(&b);
        let cut = rt::choice(10);
        let mut c = Cut { inner: ValueBuf::new(), left: cut };
        let _ = a.stream(&mut c);
        let mut buf = c.inner;
        buf.clear();
        rt::reach(1);
        check!(b.stream(&mut buf).is_ok(), "a cleared buffer doesn't buffer");
        check!(buf.is_complete(), "a cleared buffer doesn't complete");
        is_same(&w, &buf);
    }
    /// failing values fail to buffer; failing streams stop a buffered value
    fn h_buf_fault() {
        let mut g = Gen { nodes: 3, kinds: MAIN, hdr: H::None, max_children: 2, ..Gen::default() };
        let n = g.value();
        let b = buf(&n);
        let all = want(&n);
        let at = rt::choice(16) as u32;
        let mut r = Rec::failing_at(MERGED, at);
        let res = b.stream(&mut r);
        if res.is_err() { rt::reach(2) } else { rt::reach(1) }
        check!(res.is_err() == (at < all.tokens), "an error was swallowed or invented");
        check!(r.after_fail == 0, "streaming went on after an error");
    }
    fn h_buf_fault_full() {
        let n = crate::shapes::faulty();
        let b = buf(&n);
        let (all, _) = record(MERGED, &b);
        let at = crate::shapes::fails_at(all.tokens);
        let mut r = Rec::failing_at(MERGED, at);
        let res = b.stream(&mut r);
        check!(res.is_err(), "an error was swallowed");
        check!(r.after_fail == 0, "streaming went on after an error");
        rt::reach(1);
    }
    fn h_buf_fault_big() {
        let n = crate::shapes::faulty_big(260);
        let b = buf(&n);
        let (all, _) = record(MERGED, &b);
        let mut r = Rec::failing_at(MERGED, crate::shapes::fails_far(all.tokens as usize) as u32);
        check!(b.stream(&mut r).is_err(), "an error was swallowed");
        check!(r.after_fail == 0, "streaming went on after an error");
        rt::reach(1);
    }
    fn h_buf_broken_full() {
        let n = crate::shapes::breaking();
        rt::reach(1);
        check!(ValueBuf::collect(&n).is_err(), "an error was swallowed");
        check!(ValueBuf::collect_owned(&n).is_err(), "an error was swallowed");
        check!(Value::collect(&n).is_err(), "an error was swallowed");
        check!(Value::collect_owned(&n).is_err(), "an error was swallowed");
        check!(TextBuf::collect(&n).is_err(), "an error was swallowed");
        check!(BinaryBuf::collect(&n).is_err(), "an error was swallowed");
    }
    fn h_buf_broken() {
        let mut g = Gen { nodes: 2, kinds: MAIN, hdr: H::None, max_children: 1, ..Gen::default() };
        let n = match rt::choice(4) {
            0 => Node::Broken,
            1 => Node::Seq(None, vec![g.value(), Node::Broken]),
            2 => Node::Map(None, vec![(g.value(), Node::Broken)]),
            _ => Node::Tagged(Hdr::default(), Box::new(Node::ByValue(Box::new(Node::Broken)))),
        };
        rt::reach(1);
        check!(ValueBuf::collect(&n).is_err(), "an error was swallowed");
        check!(ValueBuf::collect_owned(&n).is_err(), "an error was swallowed");
        check!(Value::collect(&n).is_err(), "an error was swallowed");
        check!(Value::collect_owned(&n).is_err(), "an error was swallowed");
        check!(TextBuf::collect(&n).is_err(), "an error was swallowed");
        check!(BinaryBuf::collect(&n).is_err(), "an error was swallowed");
    }
    /// hints between fragments
    fn h_buf_hinted() {
        let (a, b) = (rt::choice(2), rt::choice(2));
        let v = Hinted(rt::ascii(a), rt::ascii(b), rt::flag());
        let w = want(&if v.2 {
            Node::Text(None, vec![(false, v.0), (true, v.1)])
        } else {
            Node::Bin(None, vec![(false, v.0.as_bytes()), (true, v.1.as_bytes())])
        });
        rt::reach(1);
        match ValueBuf::collect(&v) {
            Ok(b) => {
                let mut cfg = MERGED;
                cfg.no_tag_hints = true;
                let (g, ok) = record(cfg, &b);
                check!(ok && b.is_complete(), "streaming the buffered value failed");
                same(&w, &g, "the buffered value isn't the value");
            }
            Err(_) => rt::fail("buffering failed"),
        }
        if v.2 {
            match TextBuf::collect(&v) {
                Ok(t) => check!(t.as_str() == &[v.0, v.1].concat()[..], "not the text"),
                Err(_) => rt::fail("buffering failed"),
            }
        } else {
            match BinaryBuf::collect(&v) {
                Ok(t) => check!(t.as_slice() == [v.0, v.1].concat().as_bytes(), "not the binary"),
                Err(_) => rt::fail("buffering failed"),
            }
        }
    }

    /// any text in pieces
    fn h_buf_utf8() {
        let mut want = String::new();
        let mut t = TextBuf::new();
        let (mut f, len) = (Vec::new(), [rt::choice(4), rt::choice(4)]);
        for n in len {
            let (computed, s) = (rt::flag(), rt::utf8(n));
            want.push_str(s);
            f.push((computed, s));
            check!(if computed { t.push_fragment_computed(s) } else { t.push_fragment(s) }.is_ok(), "pushing failed");
        }
        rt::reach(1);
        check!(rt::eq(t.as_str().as_bytes(), want.as_bytes()), "the text isn't the concatenation of its pieces");
        round(&Node::Text(None, f), 1)
    }
    /// text buffers hold the concatenation of what was pushed since they were cleared
    fn h_buf_text() {
        let start = rt::choice(2);
        let mut want = String::new();
        let mut t = if start == 0 { TextBuf::new() } else { let s = rt::ascii(1); want.push_str(s); TextBuf::from(s) };
        for _ in 0..rt::choice(4) {
            let n = rt::choice(2);
            match rt::choice(7) {
                0 => { let s = rt::ascii(n); want.push_str(s); check!(t.push_fragment(s).is_ok(), "pushing failed") }
                1 => { let s = rt::ascii(n).to_owned(); want.push_str(&s); check!(t.push_fragment_computed(&s).is_ok(), "pushing failed") }
                2 => { let p = Parts(rt::ascii(n), rt::ascii(1), false); want.push_str(p.0); want.push_str(p.1); check!(t.push_display(&p).is_ok(), "pushing failed") }
                3 => { let s = rt::ascii(n).to_owned(); want.push_str(&s); check!(t.write_str(&s).is_ok(), "writing failed") }
                4 => { t.clear(); want.clear() }
                5 => { let k = t.clone(); check!(k == t, "a clone differs"); t = k }
                _ => { check!(t.push_display(&Parts("", "", true)).is_err(), "a failing display succeeded") }
            }
        }
        rt::reach(1);
        check!(rt::eq(t.as_str().as_bytes(), want.as_bytes()) && t.as_ref() == t.as_str(), "not what was pushed");
        let borrowed = t.as_borrowed_str();
        let (w, _) = record(MERGED, &*want);
        is_same(&w, &t);
        let mut r = Rec::new(MERGED);
        check!(t.stream_ref(&mut r).is_ok(), "streaming failed");
        same(&w, &r, "not what was pushed");
        drop(t);
        if let Some(b) = borrowed {
            rt::reach(2);
            check!(b == want, "the borrowed text isn't what was pushed");
        }
    }
    fn h_buf_bin() {
        let start = rt::choice(2);
        let mut want: Vec<u8> = Vec::new();
        let mut t = if start == 0 { BinaryBuf::new() } else { let s = rt::leak_bytes(1); want.extend(s); BinaryBuf::from(s) };
        for _ in 0..rt::choice(4) {
            let n = rt::choice(2);
            match rt::choice(4) {
                0 => { let s = rt::leak_bytes(n); want.extend(s); check!(t.push_fragment(s).is_ok(), "pushing failed") }
                1 => { let s = rt::leak_bytes(n).to_vec(); want.extend(&s); check!(t.push_fragment_computed(&s).is_ok(), "pushing failed") }
                2 => { t.clear(); want.clear() }
                _ => { let k = t.clone(); check!(k == t, "a clone differs"); t = k }
            }
        }
        rt::reach(1);
        check!(rt::eq(t.as_slice(), &want) && t.as_ref() == t.as_slice(), "not what was pushed");
        let borrowed = t.as_borrowed_slice();
        let (w, _) = record(MERGED, sval::BinarySlice::new(&want));
        is_same(&w, &t);
        let mut r = Rec::new(MERGED);
        check!(t.stream_ref(&mut r).is_ok(), "streaming failed");
        same(&w, &r, "not what was pushed");
        drop(t);
        if let Some(b) = borrowed {
            rt::reach(2);
            check!(b == &want[..], "the borrowed binary isn't what was pushed");
        }
    }
    /// collecting text and binary
    fn h_buf_collect() {
        let mut g = Gen { nodes: 2, kinds: &[K::Null, K::Bool, K::F64, K::Frags, K::BinFrags, K::Tagged, K::Hint, K::Map, K::ByValue, K::ByComputed, K::I64], hdr: H::None, plain: false, max_children: 1, ..Gen::default() };
        let n = if rt::flag() { Node::U8(rt::u8_()) } else { g.value() };
        let c = concat(&n);
        let mut x = &n;
        while let Node::Tagged(_, v) | Node::Hint(_, v) | Node::ByValue(v) | Node::ByComputed(v) = x {
            x = &**v;
        }
        match TextBuf::collect(&n) {
            Ok(t) => {
                rt::reach(1);
                match (x, &c) {
                    (Node::Text(..), Some(c)) => check!(rt::eq(t.as_str().as_bytes(), c), "not the text"),
                    _ => rt::fail("something that isn't text was collected as text"),
                }
            }
            Err(_) => check!(!matches!(x, Node::Text(..)), "text wasn't collected"),
        }
        match BinaryBuf::collect(&n) {
            Ok(t) => {
                rt::reach(2);
                match (x, &c) {
                    (Node::Bin(..), Some(c)) => check!(rt::eq(t.as_slice(), c), "not the binary"),
                    (Node::U8(v), _) => check!(t.as_slice() == &[*v], "not the byte"),
                    _ => rt::fail("something that isn't binary was collected as binary"),
                }
            }
            Err(_) => check!(!matches!(x, Node::Bin(..)), "binary wasn't collected"),
        }
        match TextBuf::collect_display(Parts("a", rt_ascii(), false)) {
            Ok(t) => check!(t.as_str().len() == 2, "not the text"),
            Err(_) => rt::fail("collecting a display failed"),
        }
    }
    /// a sequence of bytes is binary; text isn't collected from sequences
    fn h_buf_collect_seq() {
        let n = rt::choice(4);
        let b = rt::leak_bytes(n);
        rt::reach(1);
        match BinaryBuf::collect(b) {
            Ok(t) => check!(rt::eq(t.as_slice(), b), "not the bytes"),
            Err(_) => rt::fail("a sequence of bytes wasn't collected"),
        }
        check!(TextBuf::collect(b).is_err(), "a sequence was collected as text");
        let bad = vec![Node::U8(1), match rt::choice(3) { 0 => Node::I64(rt::i64_()), 1 => Node::Null, _ => Node::Bool(true) }];
        check!(BinaryBuf::collect(&Node::Seq(None, bad)).is_err(), "something that isn't a byte was collected as binary");
    }
}

fn rt_ascii() -> &'static str {
    rt::ascii(1)
}

/// Keeps what it is lent.
struct Keep<'a>(Vec<&'a [u8]>);

impl<'sval> sval::Stream<'sval> for Keep<'sval> {
    fn null(&mut self) -> sval::Result { Ok(()) }
    fn bool(&mut self, _: bool) -> sval::Result { Ok(()) }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn text_fragment(&mut self, s: &'sval str) -> sval::Result { self.0.push(s.as_bytes()); Ok(()) }
    fn text_fragment_computed(&mut self, _: &str) -> sval::Result { Ok(()) }
    fn text_end(&mut self) -> sval::Result { Ok(()) }
    fn binary_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn binary_fragment(&mut self, s: &'sval [u8]) -> sval::Result { self.0.push(s); Ok(()) }
    fn binary_fragment_computed(&mut self, _: &[u8]) -> sval::Result { Ok(()) }
    fn binary_end(&mut self) -> sval::Result { Ok(()) }
    fn i64(&mut self, _: i64) -> sval::Result { Ok(()) }
    fn f64(&mut self, _: f64) -> sval::Result { Ok(()) }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn seq_value_begin(&mut self) -> sval::Result { Ok(()) }
    fn seq_value_end(&mut self) -> sval::Result { Ok(()) }
    fn seq_end(&mut self) -> sval::Result { Ok(()) }
}
