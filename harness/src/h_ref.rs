//! Values that hold references.
use crate::node::{Gen, Node, H, K};
use crate::rec::{record, same, Cfg, Rec, EXACT, MERGED};
use crate::shapes::Odd;
use crate::{check, harnesses, rt};
use sval::Value;
use sval_ref::{Ref, ValueRef};

fn leaked(n: Node) -> &'static Node {
    Box::leak(Box::new(n))
}

/// `v` streams as `want`, by its own reference or by the one it holds.
fn both<'s, V: ValueRef<'s> + ?Sized>(cfg: Cfg, want: &Rec, v: &V, fail: Option<u32>) {
    let mk = || match fail {
        Some(at) => Rec::failing_at(cfg, at),
        None => Rec::new(cfg),
    };
    let mut r = mk();
    let ok = match rt::choice(3) {
        0 => v.stream_ref(&mut r),
        1 => sval_ref::stream_ref(&mut r, v),
        _ => v.stream(&mut r),
    }
    .is_ok();
    rt::obs(&r.log);
    match fail {
        Some(at) if at < want.tokens => {
            rt::reach(2);
            check!(!ok, "an error was swallowed");
            check!(r.after_fail == 0, "streaming went on after an error");
        }
        _ => {
            rt::reach(1);
            check!(ok, "streaming failed");
            same(want, &r, "the reference doesn't stream as its value");
        }
    }
}

fn refs(mut g: Gen, fail: Option<u32>) {
    refs_node(g.value(), fail)
}

fn refs_node(n: Node, fail: Option<u32>) {
    let n = leaked(n);
    let (want, ok) = record(EXACT, n);
    check!(ok, "harness");
    match rt::choice(6) {
        0 => both(EXACT, &want, &Ref::new(n), fail),
        1 => both(EXACT, &want, &sval_ref::to_ref(n), fail),
        2 => both(EXACT, &want, &&Ref::new(n), fail),
        3 => both(EXACT, &want, &Box::new(Ref::new(n)), fail),
        4 => both(EXACT, &want, &Box::new(&&Ref::new(n)), fail),
        _ => both(EXACT, &want, Ref::new_borrowed(&n), fail),
    }
}

fn containers(mut g: Gen, m: usize, fail: Option<u32>) {
    let ns: &'static [Node] = Box::leak((0..m).map(|_| g.value()).collect::<Vec<_>>().into_boxed_slice());
    let rs: Vec<Ref<&'static Node>> = ns.iter().map(Ref::new).collect();
    match rt::choice(6) {
        0 => both(EXACT, &record(EXACT, ns).0, &rs[..], fail),
        1 => both(EXACT, &record(EXACT, ns).0, &rs, fail),
        2 => both(EXACT, &record(EXACT, ns).0, &Box::new(&rs[..]), fail),
        3 => both(EXACT, &record(EXACT, &[ns.to_vec()]).0, &[rs], fail),
        4 => {
            let b: Box<[Ref<&'static Node>]> = rs.into_boxed_slice();
            both(EXACT, &record(EXACT, ns).0, &b, fail)
        }
        _ => {
            rt::assume(m == 2);
            match rt::choice(2) {
                0 => both(EXACT, &record(EXACT, &[&ns[0], &ns[1]]).0, &[rs[0], rs[1]], fail),
                _ => both(EXACT, &record(EXACT, &(&ns[0], [&ns[1]])).0, &(rs[0], [rs[1]]), fail),
            }
        }
    }
}

macro_rules! tuples {
    ($n:expr; $($k:literal => ($($i:tt)*),)*) => {
        match $n { $(
            $k => {
                let v: &'static _ = Box::leak(Box::new(($( { let _ = $i; rt::u8_() }, )*)));
                let want = record(EXACT, v).0;
                let r = ($( Ref::new(&v.$i), )*);
                both(EXACT, &want, &r, None);
            }
        )* _ => {} }
    };
}

const ALL: &[K] = &[
    K::Null, K::Bool, K::Int, K::F64, K::F32, K::Frags, K::BinFrags, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Seq,
    K::Map, K::Record, K::Tuple, K::RecordTuple, K::Hint, K::ByValue, K::ByComputed,
];
const SOME: &[K] = &[K::U64, K::Frags, K::BinFrags, K::Tag, K::Enum, K::Seq, K::ByValue, K::ByComputed];
const MAIN: &[K] = &[K::I64, K::Text, K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record, K::Tuple, K::RecordTuple];

harnesses! {
    fn h_ref_all() { refs(Gen { nodes: 2, kinds: ALL, hdr: H::Label, plain: false, max_children: 1, ..Gen::default() }, None) }
    fn h_ref_full() { refs_node(crate::shapes::full_within(), None) }
    fn h_ref_size() { refs_node(crate::shapes::any_size(), None) }
    fn h_ref_huge() { refs_node(crate::shapes::huge(66_000, 66_000), None) }
    fn h_ref_leaf() { refs_node(crate::shapes::leaf_within(), None) }
    fn h_ref_big() { refs_node(crate::shapes::big_upto(rt::choice(crate::shapes::BIG), 1100, 300, 260, false, true), None) }
    fn h_ref_main() { refs(Gen { nodes: 3, kinds: MAIN, hdr: H::Label, max_children: 2, ..Gen::default() }, None) }
    fn h_ref_seq() { containers(Gen { nodes: 2, kinds: SOME, hdr: H::None, max_children: 1, ..Gen::default() }, rt::choice(4), None) }
    fn h_ref_fault() {
        let g = Gen { nodes: 2, kinds: MAIN, hdr: H::None, max_children: 1, ..Gen::default() };
        let at = Some(rt::choice(12) as u32);
        match rt::choice(2) {
            0 => refs(g, at),
            _ => containers(g, 1 + rt::choice(2), at),
        }
    }
    fn h_ref_fault_full() {
        let at = Some(rt::choice(16) as u32);
        refs_node(crate::shapes::faulty_less(), at)
    }
    fn h_ref_long() {
        let n = 40;
        let at = rt::choice(n);
        let b = rt::u8_();
        let v: &'static [u8] = Box::leak((0..n).map(|i| if i == at { b } else { 7 }).collect::<Vec<_>>().into_boxed_slice());
        let rs: Vec<_> = v.iter().map(Ref::new).collect();
        both(EXACT, &record(EXACT, v).0, &rs, None);
    }
    fn h_ref_tuple() {
        tuples!(1 + rt::choice(16);
            1 => (0), 2 => (0 1), 3 => (0 1 2), 4 => (0 1 2 3), 5 => (0 1 2 3 4), 6 => (0 1 2 3 4 5), 7 => (0 1 2 3 4 5 6),
            8 => (0 1 2 3 4 5 6 7), 9 => (0 1 2 3 4 5 6 7 8), 10 => (0 1 2 3 4 5 6 7 8 9), 11 => (0 1 2 3 4 5 6 7 8 9 10),
            12 => (0 1 2 3 4 5 6 7 8 9 10 11), 13 => (0 1 2 3 4 5 6 7 8 9 10 11 12), 14 => (0 1 2 3 4 5 6 7 8 9 10 11 12 13),
            15 => (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14), 16 => (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15),
        )
    }
    /// values that fail
    fn h_ref_broken() {
        let n = leaked(Node::Seq(None, vec![Node::Null, Node::Broken]));
        let mut r = Rec::new(MERGED);
        rt::reach(1);
        let e = match rt::choice(4) {
            0 => Ref::new(n).stream_ref(&mut r),
            1 => [Ref::new(n), Ref::new(n)].stream_ref(&mut r),
            2 => (Ref::new(n), Ref::new(n)).stream_ref(&mut r),
            _ => vec![Ref::new(n)].stream_ref(&mut r),
        };
        check!(e.is_err(), "an error was swallowed");
    }
    /// the tag and every conversion are the value's own
    fn h_ref_casts() {
        let o: &'static Odd = Box::leak(Box::new(Odd::any()));
        rt::reach(1);
        let r = Ref::new(o);
        o.agrees(&r);
        o.agrees(&&r);
        o.agrees(&Box::new(r));
        o.agrees(Ref::new_borrowed(o));
        o.agrees(*r.inner());
        o.agrees(r.into_inner());
    }
}
