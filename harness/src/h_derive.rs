//! #[derive(Value)]: what each of a family of types streams as.
use crate::derived;
use crate::node::{Hdr, Lab, Node};
use crate::rec::{record, same, tag_code, Rec, EXACT, MERGED};
use crate::{check, harnesses, rt};
use sval::{Index, Tag, Value};
use sval_derive::Value;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Stream,
    /// the stream fails at this call
    Fail(u32),
}

/// A field of a type that's derived too
#[derive(Value)]
pub struct Nest {
    pub n: u8,
}

pub fn nest(x: u8) -> Node {
    Node::RecordTuple(Hdr { label: Some(ident("Nest")), ..Hdr::default() }, Some(1), vec![(None, ident("n"), off(0), Node::U8(x))])
}

/// The label of something that's named by its identifier
pub fn ident(s: &'static str) -> Lab {
    Lab { s, is_static: true, tag: Some(sval::tags::VALUE_IDENT) }
}

pub fn lit(s: &'static str) -> Lab {
    Lab { s, is_static: true, tag: None }
}

pub fn computed(s: &'static str) -> Lab {
    Lab { s, is_static: false, tag: None }
}

/// The index of something that's identified by its position
pub fn off(i: isize) -> Index {
    Index::new_isize(i).with_tag(&sval::tags::VALUE_OFFSET)
}

pub fn ck<V: Value + ?Sized>(m: Mode, v: &V, want: &Node, tag: Option<Tag>, exact: bool) {
    let cfg = if exact { EXACT } else { MERGED };
    let (want, _) = record(cfg, want);
    match m {
        Mode::Stream => {
            let (got, ok) = record(cfg, v);
            check!(ok, "a derived value fails to stream");
            rt::reach(1);
            rt::obs(&got.log);
            same(&want, &got, "a derived value doesn't stream as declared");
            check!(tag_code(v.tag().as_ref()) == tag_code(tag.as_ref()), "a derived value's tag isn't the one it streams");
        }
        Mode::Fail(at) => {
            let mut r = Rec::failing_at(cfg, at);
            let res = v.stream(&mut r);
            if at < want.tokens {
                rt::reach(2);
                check!(res.is_err(), "an error was swallowed");
                check!(r.after_fail == 0, "streaming went on after an error");
            } else {
                rt::reach(1);
                check!(res.is_ok(), "an error was invented");
            }
        }
    }
}

fn run(set: &[fn(Mode)], fail: usize) {
    let m = if fail > 0 { Mode::Fail(rt::choice(fail) as u32) } else { Mode::Stream };
    set[rt::choice(set.len())](m)
}

// ---- generics ----

#[derive(Value)]
struct Generic<'a, T: ?Sized, U, const N: usize>
where
    U: Clone,
{
    by_ref: &'a T,
    owned: U,
    array: [u8; N],
}

#[derive(Value)]
#[sval(transparent)]
struct Wrap<T>(T);

#[derive(Value)]
enum Either<'a, L, R> {
    Left(L),
    Right { r: R, s: &'a str },
}

#[derive(Value)]
enum Void {}

#[derive(Value)]
struct Broken {
    before: u8,
    broken: Node,
    after: u8,
}

#[derive(Value)]
struct BrokenFlat(u8, #[sval(flatten)] Node, u8);

fn bytes(b: [u8; 2]) -> Node {
    Node::Tagged(Hdr { tag: Some(sval::tags::CONSTANT_SIZE), ..Hdr::default() }, Box::new(Node::Seq(Some(2), b.iter().map(|b| Node::U8(*b)).collect())))
}

fn text(s: &'static str) -> Node {
    Node::Text(Some(s.len()), vec![(false, s)])
}

harnesses! {
    fn h_derive_structs() { run(derived::STRUCTS, 0) }
    fn h_derive_scalars() { run(derived::SCALARS, 0) }
    fn h_derive_enums() { run(derived::ENUMS, 0) }
    fn h_derive_flats() { run(derived::FLATS, 0) }
    fn h_derive_flat_enums() { run(derived::FLAT_ENUMS, 0) }
    fn h_derive_larges() { run(derived::LARGES, 0) }
    fn h_derive_edges() { run(derived::EDGES, 0) }
    fn h_derive_fault() {
        match rt::choice(5) {
            0 => run(derived::STRUCTS, 12),
            1 => run(derived::SCALARS, 4),
            2 => run(derived::ENUMS, 12),
            3 => run(derived::FLATS, 16),
            _ => run(derived::FLAT_ENUMS, 16),
        }
    }
    fn h_derive_generic() {
        let (x, y, s) = (rt::u8_(), rt::u64_(), rt::letters(2));
        let a: [u8; 2] = rt::bytes();
        match rt::choice(5) {
            0 => ck(Mode::Stream, &Generic { by_ref: s, owned: y, array: a },
                &Node::RecordTuple(Hdr { label: Some(ident("Generic")), ..Hdr::default() }, Some(3), vec![
                    (None, ident("by_ref"), off(0), text(s)),
                    (None, ident("owned"), off(1), Node::U64(y)),
                    (None, ident("array"), off(2), bytes(a)),
                ]), None, true),
            1 => ck(Mode::Stream, &Wrap(Wrap(y)), &Node::U64(y), Some(sval::tags::NUMBER), true),
            2 => ck(Mode::Stream, &Either::<u8, Void>::Left(x),
                &Node::Enum(Hdr { label: Some(ident("Either")), ..Hdr::default() },
                    Some(Box::new(Node::Tagged(Hdr { label: Some(ident("Left")), index: Some(off(0)), tag: None }, Box::new(Node::U8(x)))))), None, true),
            3 => ck(Mode::Stream, &Either::<Void, Wrap<u8>>::Right { r: Wrap(x), s },
                &Node::Enum(Hdr { label: Some(ident("Either")), ..Hdr::default() },
                    Some(Box::new(Node::RecordTuple(Hdr { label: Some(ident("Right")), index: Some(off(1)), tag: None }, Some(2), vec![
                        (None, ident("r"), off(0), Node::U8(x)), (None, ident("s"), off(1), text(s))])))), None, true),
            _ => {
                let e = Wrap(Nest { n: x });
                ck(Mode::Stream, &e, &nest(x), None, true)
            }
        }
    }
    /// field values that fail
    fn h_derive_broken() {
        let n = match rt::choice(3) {
            0 => Node::Broken,
            1 => Node::Seq(None, vec![Node::Null, Node::Broken]),
            _ => Node::Map(None, vec![(Node::Broken, Node::Null)]),
        };
        let mut r = Rec::new(MERGED);
        rt::reach(1);
        let res = match rt::choice(3) {
            0 => Broken { before: 1, broken: n, after: 2 }.stream(&mut r),
            1 => Either::<_, u8>::Left(n).stream(&mut r),
            _ => {
                rt::assume(!matches!(n, Node::Broken));
                BrokenFlat(1, n, 2).stream(&mut r)
            }
        };
        check!(res.is_err(), "an error was swallowed");
    }
}
