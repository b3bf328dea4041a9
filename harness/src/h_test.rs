//! The recorder of `sval_test`.
use crate::node::{Gen, Node, H, K};
use crate::rec::{record, same, Rec, EXACT};
use crate::shapes;
use crate::{check, harnesses, rt};
use sval::{Stream, Value};
use sval_test::{Token, TokenBuf};

/// Make the calls that the tokens stand for.
fn replay(tokens: &[Token<'static>], s: &mut Rec) -> sval::Result {
    for t in tokens {
        match t {
            Token::U8(v) => s.u8(*v)?,
            Token::U16(v) => s.u16(*v)?,
            Token::U32(v) => s.u32(*v)?,
            Token::U64(v) => s.u64(*v)?,
            Token::U128(v) => s.u128(*v)?,
            Token::I8(v) => s.i8(*v)?,
            Token::I16(v) => s.i16(*v)?,
            Token::I32(v) => s.i32(*v)?,
            Token::I64(v) => s.i64(*v)?,
            Token::I128(v) => s.i128(*v)?,
            Token::F32(v) => s.f32(*v)?,
            Token::F64(v) => s.f64(*v)?,
            Token::Bool(v) => s.bool(*v)?,
            Token::Null => s.null()?,
            Token::Tag(t, l, i) => s.tag(t.as_ref(), l.as_ref(), i.as_ref())?,
            Token::TagHint(t) => s.tag_hint(t)?,
            Token::TextBegin(n) => s.text_begin(*n)?,
            Token::TextFragment(v) => s.text_fragment(v)?,
            Token::TextFragmentComputed(v) => s.text_fragment_computed(v)?,
            Token::TextEnd => s.text_end()?,
            Token::BinaryBegin(n) => s.binary_begin(*n)?,
            Token::BinaryFragment(v) => s.binary_fragment(v)?,
            Token::BinaryFragmentComputed(v) => s.binary_fragment_computed(v)?,
            Token::BinaryEnd => s.binary_end()?,
            Token::MapBegin(n) => s.map_begin(*n)?,
            Token::MapKeyBegin => s.map_key_begin()?,
            Token::MapKeyEnd => s.map_key_end()?,
            Token::MapValueBegin => s.map_value_begin()?,
            Token::MapValueEnd => s.map_value_end()?,
            Token::MapEnd => s.map_end()?,
            Token::SeqBegin(n) => s.seq_begin(*n)?,
            Token::SeqValueBegin => s.seq_value_begin()?,
            Token::SeqValueEnd => s.seq_value_end()?,
            Token::SeqEnd => s.seq_end()?,
            Token::EnumBegin(t, l, i) => s.enum_begin(t.as_ref(), l.as_ref(), i.as_ref())?,
            Token::EnumEnd(t, l, i) => s.enum_end(t.as_ref(), l.as_ref(), i.as_ref())?,
            Token::TaggedBegin(t, l, i) => s.tagged_begin(t.as_ref(), l.as_ref(), i.as_ref())?,
            Token::TaggedEnd(t, l, i) => s.tagged_end(t.as_ref(), l.as_ref(), i.as_ref())?,
            Token::RecordBegin(t, l, i, n) => s.record_begin(t.as_ref(), l.as_ref(), i.as_ref(), *n)?,
            Token::RecordValueBegin(t, l) => s.record_value_begin(t.as_ref(), l)?,
            Token::RecordValueEnd(t, l) => s.record_value_end(t.as_ref(), l)?,
            Token::RecordEnd(t, l, i) => s.record_end(t.as_ref(), l.as_ref(), i.as_ref())?,
            Token::TupleBegin(t, l, i, n) => s.tuple_begin(t.as_ref(), l.as_ref(), i.as_ref(), *n)?,
            Token::TupleValueBegin(t, i) => s.tuple_value_begin(t.as_ref(), i)?,
            Token::TupleValueEnd(t, i) => s.tuple_value_end(t.as_ref(), i)?,
            Token::TupleEnd(t, l, i) => s.tuple_end(t.as_ref(), l.as_ref(), i.as_ref())?,
            Token::RecordTupleBegin(t, l, i, n) => s.record_tuple_begin(t.as_ref(), l.as_ref(), i.as_ref(), *n)?,
            Token::RecordTupleValueBegin(t, l, i) => s.record_tuple_value_begin(t.as_ref(), l, i)?,
            Token::RecordTupleValueEnd(t, l, i) => s.record_tuple_value_end(t.as_ref(), l, i)?,
            Token::RecordTupleEnd(t, l, i) => s.record_tuple_end(t.as_ref(), l.as_ref(), i.as_ref())?,
            _ => rt::fail("an unknown token"),
        }
    }
    Ok(())
}

fn exact(n: Node) {
    let n: &'static Node = Box::leak(Box::new(n));
    let (want, ok) = record(EXACT, n);
    check!(ok, "harness");
    let mut buf = TokenBuf::new();
    check!(n.stream(&mut buf).is_ok(), "recording failed");
    let mut got = Rec::new(EXACT);
    check!(replay(buf.as_tokens(), &mut got).is_ok(), "harness");
    rt::obs(&got.log);
    rt::reach(1);
    same(&want, &got, "the tokens aren't the calls that were made");
    check!(buf.as_tokens().len() == want.tokens as usize, "the tokens aren't the calls that were made");
}

/// Tokens are equal just when the calls are.
fn tell_apart(a: Node, b: Node) {
    let (a, b): (&'static Node, &'static Node) = (Box::leak(Box::new(a)), Box::leak(Box::new(b)));
    let (mut x, mut y) = (TokenBuf::new(), TokenBuf::new());
    check!(a.stream(&mut x).is_ok() && b.stream(&mut y).is_ok(), "recording failed");
    let same = rt::eq(&record(EXACT, a).0.log, &record(EXACT, b).0.log);
    check!((x == y) == same, "equal tokens for different calls, or different tokens for equal ones");
    check!((x.as_tokens() == y.as_tokens()) == same, "equal tokens for different calls, or different tokens for equal ones");
    if same {
        rt::reach(1);
        sval_test::assert_tokens(a, y.as_tokens());
    } else {
        rt::reach(2);
    }
}

const ALL: &[K] = &[
    K::Null, K::Bool, K::Int, K::F64, K::F32, K::Frags, K::BinFrags, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Seq,
    K::Map, K::Record, K::Tuple, K::RecordTuple, K::Hint, K::ByValue, K::ByComputed,
];

harnesses! {
    fn h_test_all() { exact(Gen { nodes: 2, kinds: ALL, hdr: H::All, plain: false, max_children: 1, ..Gen::default() }.value()) }
    fn h_test_main() { exact(Gen { nodes: 3, kinds: ALL, hdr: H::None, max_children: 2, ..Gen::default() }.value()) }
    fn h_test_full() { exact(shapes::full_within()) }
    fn h_test_leaf() { exact(shapes::leaf_within()) }
    fn h_test_big() { exact(shapes::big(rt::choice(shapes::BIG))) }
    fn h_test_apart() {
        let (a, b) = (rt::choice(shapes::LEAVES), rt::choice(shapes::LEAVES));
        rt::assume(a != 15 && b != 15); // NaN isn't equal to itself
        tell_apart(shapes::leaf(a), shapes::leaf(b))
    }
    fn h_test_apart_full() {
        let x = || Node::U8(rt::digit());
        tell_apart(shapes::full(rt::choice(shapes::FULLS), x()), shapes::full(rt::choice(shapes::FULLS), x()))
    }
    /// values that are valid, and values that aren't
    fn h_test_validity() {
        rt::reach(1);
        let n = shapes::leaf(rt::choice(shapes::LEAVES));
        if rt::flag() {
            sval_test::assert_valid(&n);
        } else {
            sval_test::assert_invalid(&shapes::within(rt::choice(shapes::PLACES), Node::Broken));
        }
    }
}
