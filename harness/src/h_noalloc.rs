//! The crates without their alloc features: everything works as with them, or fails.
use crate::node::{Gen, Hdr, Lab, Node, H, K};
use crate::rec::{record, same, Rec, MERGED};
use crate::shapes::{fragments, leaf, leaf_within, LEAVES};
use crate::{check, harnesses, rt};
use std::fmt::Write as _;
use sval::Stream as _;
use sval_buffer::{BinaryBuf, TextBuf, Value, ValueBuf};
use sval_ref::ValueRef as _;

fn is_same<V: sval::Value + ?Sized>(w: &Rec, v: &V) {
    let (g, ok) = record(MERGED, v);
    check!(ok, "streaming the buffered value failed");
    same(w, &g, "the buffered value isn't the value");
    rt::obs(&g.log);
}

/// A value that fits without allocating: one scalar, or one borrowed piece of text or binary.
fn fits(n: &Node) -> bool {
    match n {
        Node::Text(_, f) => f.is_empty() || (f.len() == 1 && !f[0].0),
        Node::Bin(_, f) => f.is_empty() || (f.len() == 1 && !f[0].0),
        Node::Tag(h) => h.label.as_ref().map(|l| l.is_static).unwrap_or(true),
        Node::Null | Node::Bool(_) | Node::U8(_) | Node::U16(_) | Node::U32(_) | Node::U64(_) | Node::U128(_) => true,
        Node::I8(_) | Node::I16(_) | Node::I32(_) | Node::I64(_) | Node::I128(_) | Node::F32(_) | Node::F64(_) => true,
        _ => false,
    }
}

fn buffered(n: &Node) {
    let (w, ok) = record(MERGED, n);
    check!(ok, "the value failed (harness)");
    let way = rt::choice(5);
    let b = match ValueBuf::collect(n) {
        Ok(b) => b,
        Err(_) => {
            check!(!fits(n), "a value that needs no allocation failed");
            return rt::reach(2);
        }
    };
    rt::reach(1);
    check!(b.is_complete(), "a collected value is incomplete");
    match way {
        0 => is_same(&w, &b),
        1 => is_same(&w, &b.into_value()),
        2 => {
            let v = b.to_value();
            is_same(&w, &b);
            drop(b);
            is_same(&w, &v.clone())
        }
        3 => {
            let mut r = Rec::new(MERGED);
            check!(b.stream_ref(&mut r).is_ok(), "streaming the buffered value failed");
            same(&w, &r, "the buffered value isn't the value")
        }
        _ => {
            match b.into_owned() {
                Ok(b) => is_same(&w, &b),
                Err(_) => (),
            }
            match Value::collect_owned(n) {
                Ok(b) => is_same(&w, &b),
                Err(_) => (),
            }
        }
    }
}

const SMALL: &[K] = &[
    K::Null, K::Bool, K::Int, K::F64, K::F32, K::Frags, K::BinFrags, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Seq,
    K::Map, K::Record, K::Tuple, K::RecordTuple, K::Hint, K::ByValue, K::ByComputed,
];

harnesses! {
    /// buffering either keeps all of a value or fails
    fn h_na_buf() {
        buffered(&Gen { nodes: 2, kinds: SMALL, hdr: H::All, plain: false, static_labels: true, max_children: 1, ..Gen::default() }.value())
    }
    fn h_na_buf_leaf() {
        let x = leaf(rt::choice(LEAVES));
        buffered(&x)
    }
    fn h_na_buf_within() { buffered(&leaf_within()) }
    fn h_na_buf_frags() { buffered(&fragments(3)) }
    /// a buffer that failed can be cleared and used again
    fn h_na_buf_reuse() {
        let a = if rt::flag() { leaf_within() } else { fragments(3) };
        let b = leaf(rt::choice(LEAVES));
        rt::assume(fits(&b));
        let mut buf = ValueBuf::new();
        if buf.value(&a).is_ok() {
            rt::reach(1);
            let (w, _) = record(MERGED, &a);
            check!(buf.is_complete(), "a buffered value is incomplete");
            is_same(&w, &buf);
        } else {
            rt::reach(2);
        }
        buf.clear();
        check!(!buf.is_complete(), "a cleared buffer is complete");
        check!(buf.value(&b).is_ok(), "a cleared buffer doesn't take a value");
        let (w, _) = record(MERGED, &b);
        is_same(&w, &buf);
        check!(buf.is_complete(), "a buffered value is incomplete");
    }
    /// text: what was pushed with success is there, all of it
    fn h_na_text() {
        let mut want = String::new();
        let mut t = TextBuf::new();
        if rt::flag() {
            let s = rt::ascii(1);
            want.push_str(s);
            t = TextBuf::from(s);
        }
        for _ in 0..rt::choice(4) {
            let s = rt::ascii(rt::choice(2));
            let (ok, op) = match rt::choice(6) {
                0 => {
                    let ok = t.push_fragment(s).is_ok();
                    check!(ok || !want.is_empty(), "an empty buffer doesn't take a borrowed fragment");
                    (ok, true)
                }
                1 => (t.push_fragment_computed(s).is_ok(), true),
                2 => (t.push_display(s).is_ok(), true),
                3 => (t.write_str(s).is_ok(), true),
                4 => {
                    t.clear();
                    want.clear();
                    (true, false)
                }
                _ => {
                    let k = t.clone();
                    check!(k == t, "a clone differs");
                    t = k;
                    (true, false)
                }
            };
            if ok && op {
                rt::reach(1);
                want.push_str(s);
            } else if !ok {
                rt::reach(2);
            }
            check!(rt::eq(t.as_str().as_bytes(), want.as_bytes()), "not what was pushed");
        }
        if let Some(b) = t.as_borrowed_str() {
            check!(b == want, "the borrowed text isn't what was pushed");
        }
        let (w, _) = record(MERGED, &*want);
        is_same(&w, &t);
    }
    fn h_na_bin() {
        let mut want: Vec<u8> = Vec::new();
        let mut t = BinaryBuf::new();
        for _ in 0..rt::choice(4) {
            let s: &'static [u8] = rt::leak_bytes(rt::choice(2));
            let (ok, op) = match rt::choice(4) {
                0 => {
                    let ok = t.push_fragment(s).is_ok();
                    check!(ok || !want.is_empty(), "an empty buffer doesn't take a borrowed fragment");
                    (ok, true)
                }
                1 => (t.push_fragment_computed(s).is_ok(), true),
                2 => {
                    t.clear();
                    want.clear();
                    (true, false)
                }
                _ => {
                    let k = t.clone();
                    check!(k == t, "a clone differs");
                    t = k;
                    (true, false)
                }
            };
            if ok && op {
                rt::reach(1);
                want.extend_from_slice(s);
            } else if !ok {
                rt::reach(2);
            }
            check!(rt::eq(t.as_slice(), &want), "not what was pushed");
        }
        if let Some(b) = t.as_borrowed_slice() {
            check!(b == &want[..], "the borrowed binary isn't what was pushed");
        }
    }
    /// collecting text and binary gives all of it or fails
    fn h_na_collect() {
        let n = fragments(3);
        match &n {
            Node::Text(_, f) => match TextBuf::collect(&n) {
                Ok(t) => {
                    let s: String = f.iter().map(|f| f.1).collect();
                    rt::reach(1);
                    check!(t.as_str() == s, "not the text");
                }
                Err(_) => {
                    rt::reach(2);
                    check!(!fits(&n), "a borrowed piece of text failed");
                }
            },
            Node::Bin(_, f) => match BinaryBuf::collect(&n) {
                Ok(t) => {
                    let s: Vec<u8> = f.iter().flat_map(|f| f.1.iter().copied()).collect();
                    rt::reach(1);
                    check!(t.as_slice() == &s[..], "not the binary");
                }
                Err(_) => {
                    rt::reach(2);
                    check!(!fits(&n), "a borrowed piece of binary failed");
                }
            },
            _ => unreachable!(),
        }
    }
    /// labels keep their text, tag and identity
    fn h_na_label() {
        let s = rt::ascii(2);
        let lab = Lab { s, is_static: rt::flag(), tag: if rt::flag() { Some(crate::rec::T1) } else { None } };
        let l = lab.get();
        let k = l.clone();
        rt::reach(1);
        for x in [&l, &k] {
            check!(rt::eq(x.as_str().as_bytes(), s.as_bytes()), "a label lost its text");
            check!(x.as_static_str().is_some() == lab.is_static, "a label changed its lifetime");
            check!(x.tag() == lab.tag.as_ref(), "a label lost its tag");
        }
        check!(l == k, "copies differ");
    }
    /// scalars, and containers of scalars, pass through the nested API
    fn h_na_nested_must() {
        let x = leaf(rt::choice(LEAVES));
        rt::assume(fits(&x));
        let l = || Lab { s: rt::letters(1), is_static: true, tag: if rt::flag() { Some(crate::rec::T2) } else { None } };
        let i = sval::Index::new(0);
        let h = |t: Option<sval::Tag>| Hdr { tag: t, label: Some(l()), index: None };
        let n = match rt::choice(7) {
            0 => x,
            1 => Node::Seq(None, vec![x, Node::Null]),
            2 => Node::Map(Some(1), vec![(Node::Null, x)]),
            3 => Node::Record(h(None), None, vec![(None, l(), x)]),
            4 => Node::Tuple(h(Some(crate::rec::T1)), None, vec![(None, i, x)]),
            5 => Node::Tagged(h(None), Box::new(x)),
            _ => Node::Enum(h(None), Some(Box::new(Node::Tagged(h(None), Box::new(x))))),
        };
        rt::reach(1);
        crate::h_nested::through_must(n);
    }
}
