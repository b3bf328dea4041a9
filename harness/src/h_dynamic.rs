//! Object-safe values and streams.
use crate::node::{Gen, Hdr, Node, H, K};
use crate::rec::{record, same, tag_code, Min, Rec, COMPUTED, EXACT, MERGED};
use crate::shapes::Odd;
use crate::{check, harnesses, rt};
use sval::{Result, Stream, Tag, Value};

type DynV<'a> = dyn sval_dynamic::Value + 'a;
type DynS<'s, 'a> = dyn sval_dynamic::Stream<'s> + 'a;

const WAYS: usize = 12;

/// The ways a value or its stream may be erased; from 8 on the value is computed
fn erased(n: &'static Node, how: usize, r: &mut Rec) -> Result {
    match how {
        0 => {
            let v: &DynV = n;
            v.stream(r)
        }
        1 => {
            let v: Box<DynV> = Box::new(n);
            let v: &'static Box<DynV> = Box::leak(Box::new(v));
            v.stream(r)
        }
        2 => {
            let v: &(dyn sval_dynamic::Value + Send + 'static) = Box::leak(Box::new(SendNode(n)));
            v.stream(r)
        }
        3 => {
            let v: &(dyn sval_dynamic::Value + Send + Sync + 'static) = Box::leak(Box::new(SendNode(n)));
            v.stream(r)
        }
        4 => {
            let s: &mut DynS = r;
            n.stream(s)
        }
        5 => {
            // twice
            let v: &'static DynV = n;
            let v: &DynV = Box::leak(Box::new(v));
            let mut s: &mut DynS = r;
            let s: &mut DynS = &mut s;
            v.stream(s)
        }
        6 => {
            let mut m = SendRec(r);
            let s: &mut (dyn sval_dynamic::Stream + Send) = &mut m;
            s.value(n)
        }
        7 => {
            let mut m = SendRec(r);
            let s: &mut (dyn sval_dynamic::Stream + Send + Sync) = &mut m;
            let v: &DynV = n;
            sval::stream(s, v)
        }
        8 => {
            let s: &mut DynS = r;
            s.value_computed(n)
        }
        9 => {
            let v: &DynV = n;
            sval::stream_computed(r, v)
        }
        10 => {
            let v: &DynV = n;
            let s: &mut DynS = r;
            sval::stream_computed(s, v)
        }
        _ => {
            let mut m = SendRec(r);
            let s: &mut (dyn sval_dynamic::Stream + Send) = &mut m;
            s.value_computed(n)
        }
    }
}

struct SendNode(&'static Node);
unsafe impl Send for SendNode {}
unsafe impl Sync for SendNode {}
impl Value for SendNode {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> Result {
        self.0.stream(s)
    }
}

/// Everything, one to one (a recorder isn't known to be `Send`)
struct SendRec<'a>(&'a mut Rec);
unsafe impl<'a> Send for SendRec<'a> {}
unsafe impl<'a> Sync for SendRec<'a> {}

macro_rules! one_to_one {
    ($($f:ident($($a:ident: $t:ty),*);)*) => { $( fn $f(&mut self, $($a: $t),*) -> Result { self.0.$f($($a),*) } )* };
}

type Tg<'a> = Option<&'a Tag>;
type Lb<'a, 'b> = Option<&'a sval::Label<'b>>;
type Ix<'a> = Option<&'a sval::Index>;

impl<'a, 'sval> Stream<'sval> for SendRec<'a> {
    one_to_one! {
        null(); bool(v: bool); u8(v: u8); u16(v: u16); u32(v: u32); u64(v: u64); u128(v: u128); i8(v: i8); i16(v: i16);
        i32(v: i32); i64(v: i64); i128(v: i128); f32(v: f32); f64(v: f64);
        text_begin(n: Option<usize>); text_fragment(s: &'sval str); text_fragment_computed(s: &str); text_end();
        binary_begin(n: Option<usize>); binary_fragment(s: &'sval [u8]); binary_fragment_computed(s: &[u8]); binary_end();
        map_begin(n: Option<usize>); map_key_begin(); map_key_end(); map_value_begin(); map_value_end(); map_end();
        seq_begin(n: Option<usize>); seq_value_begin(); seq_value_end(); seq_end();
        tag(t: Tg, l: Lb, i: Ix); tagged_begin(t: Tg, l: Lb, i: Ix); tagged_end(t: Tg, l: Lb, i: Ix);
        enum_begin(t: Tg, l: Lb, i: Ix); enum_end(t: Tg, l: Lb, i: Ix); tag_hint(t: &Tag);
        record_begin(t: Tg, l: Lb, i: Ix, n: Option<usize>); record_end(t: Tg, l: Lb, i: Ix);
        record_value_begin(t: Tg, l: &sval::Label); record_value_end(t: Tg, l: &sval::Label);
        tuple_begin(t: Tg, l: Lb, i: Ix, n: Option<usize>); tuple_end(t: Tg, l: Lb, i: Ix);
        tuple_value_begin(t: Tg, i: &sval::Index); tuple_value_end(t: Tg, i: &sval::Index);
        record_tuple_begin(t: Tg, l: Lb, i: Ix, n: Option<usize>); record_tuple_end(t: Tg, l: Lb, i: Ix);
        record_tuple_value_begin(t: Tg, l: &sval::Label, i: &sval::Index);
        record_tuple_value_end(t: Tg, l: &sval::Label, i: &sval::Index);
    }
    fn value<V: Value + ?Sized>(&mut self, v: &'sval V) -> Result {
        self.0.value(v)
    }
    fn value_computed<V: Value + ?Sized>(&mut self, v: &V) -> Result {
        self.0.value_computed(v)
    }
}

fn leaked(n: Node) -> &'static Node {
    Box::leak(Box::new(n))
}

fn forward(mut g: Gen) {
    forward_node(g.value())
}

fn forward_node(n: Node) {
    let n = leaked(n);
    let how = rt::choice(WAYS);
    // a computed value's fragments are all computed: lifetimes are not part of the value
    let cfg = if how >= 8 { COMPUTED } else { EXACT };
    let (want, ok) = record(cfg, n);
    check!(ok, "harness");
    let mut r = Rec::new(cfg);
    check!(erased(n, how, &mut r).is_ok(), "an erased stream failed");
    rt::reach(1);
    rt::obs(&r.log);
    same(&want, &r, "erasing a value or its stream changed what is streamed");
}

const ALL: &[K] = &[
    K::Null, K::Bool, K::Int, K::F64, K::F32, K::Frags, K::BinFrags, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Seq,
    K::Map, K::Record, K::Tuple, K::RecordTuple, K::Hint, K::ByValue, K::ByComputed,
];
const HEADED: &[K] = &[K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record, K::Tuple, K::RecordTuple];
const MAIN: &[K] = &[K::I64, K::Text, K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record, K::Tuple, K::RecordTuple];

harnesses! {
    fn h_dyn_all() { forward(Gen { nodes: 2, kinds: ALL, hdr: H::Label, plain: false, max_children: 1, ..Gen::default() }) }
    fn h_dyn_hdr() { forward(Gen { nodes: 2, kinds: HEADED, hdr: H::All, plain: false, value_tags: true, max_children: 1, ..Gen::default() }) }
    fn h_dyn_hints() { forward(Gen { nodes: 2, kinds: HEADED, hdr: H::LabelIndex, plain: false, sizes: true, label_tags: true, max_children: 1, ..Gen::default() }) }
    fn h_dyn_main() { forward(Gen { nodes: 3, kinds: MAIN, hdr: H::Label, plain: false, max_children: 2, ..Gen::default() }) }
    fn h_dyn_size() { forward_node(crate::shapes::any_size()) }
    fn h_dyn_full() { forward_node(crate::shapes::full_within()) }
    fn h_dyn_leaf() { forward_node(crate::shapes::leaf_within()) }
    fn h_dyn_big() { forward_node(crate::shapes::big_upto(rt::choice(crate::shapes::BIG), 1100, 300, 260, false, true)) }
    fn h_dyn_huge() { forward_node(crate::shapes::huge(66_000, 66_000)) }
    fn h_dyn_all3() { forward(Gen { nodes: 3, kinds: ALL, hdr: H::None, plain: false, max_children: 2, ..Gen::default() }) }
    /// a stream with nothing but the required methods sees the same through erasure
    fn h_dyn_least() {
        let mut g = Gen { nodes: 2, kinds: &[K::Null, K::Bool, K::I64, K::F64, K::F32, K::Frags, K::BinFrags, K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record, K::Tuple, K::RecordTuple, K::ByValue, K::ByComputed],
            hdr: H::Label, plain: false, max_children: 1, ..Gen::default() };
        let n = g.value();
        let mut want = Min(Rec::new(MERGED));
        check!(n.stream(&mut want).is_ok(), "harness");
        let mut got = Min(Rec::new(MERGED));
        let v: &DynV = &n;
        let s: &mut DynS = &mut got;
        check!(v.stream(s).is_ok(), "an erased stream failed");
        rt::reach(1);
        same(&want.0, &got.0, "erasing a value or its stream changed what is streamed");
    }
    fn h_dyn_fault() {
        let mut g = Gen { nodes: 2, kinds: ALL, hdr: H::None, plain: true, max_children: 1, ..Gen::default() };
        let n = leaked(g.value());
        let how = rt::choice(WAYS);
        let (want, _) = record(MERGED, n);
        let at = rt::choice(8) as u32;
        let mut r = Rec::failing_at(MERGED, at);
        let res = erased(n, how, &mut r);
        if at < want.tokens {
            rt::reach(2);
            check!(res.is_err(), "an error was swallowed");
            check!(r.after_fail == 0, "streaming went on after an error");
        } else {
            rt::reach(1);
            check!(res.is_ok(), "an error was invented");
            same(&want, &r, "erasing changed the stream");
        }
    }
    fn h_dyn_fault_full() {
        let n = leaked(crate::shapes::faulty_less());
        let how = rt::choice(WAYS);
        let (want, _) = record(MERGED, n);
        let mut r = Rec::failing_at(MERGED, crate::shapes::fails_at(want.tokens));
        let res = erased(n, how, &mut r);
        rt::reach(1);
        check!(res.is_err(), "an error was swallowed");
        check!(r.after_fail == 0, "streaming went on after an error");
    }
    fn h_dyn_fault_big() {
        let n = leaked(crate::shapes::faulty_big(260));
        let how = [0, 4, 7, 8, 11][rt::choice(5)];
        let (want, _) = record(MERGED, n);
        let mut r = Rec::failing_at(MERGED, crate::shapes::fails_far(want.tokens as usize) as u32);
        let res = erased(n, how, &mut r);
        rt::reach(1);
        check!(res.is_err(), "an error was swallowed");
        check!(r.after_fail == 0, "streaming went on after an error");
    }
    fn h_dyn_broken_full() {
        let n = leaked(crate::shapes::breaking());
        let mut r = Rec::new(EXACT);
        rt::reach(1);
        check!(erased(n, rt::choice(WAYS), &mut r).is_err(), "an error was swallowed");
    }
    fn h_dyn_broken() {
        let n = leaked(match rt::choice(4) {
            0 => Node::Broken,
            1 => Node::Seq(None, vec![Node::Null, Node::Broken]),
            2 => Node::ByComputed(Box::new(Node::Broken)),
            _ => Node::Tagged(Hdr::default(), Box::new(Node::ByValue(Box::new(Node::Broken)))),
        });
        let mut r = Rec::new(EXACT);
        rt::reach(1);
        check!(erased(n, rt::choice(WAYS), &mut r).is_err(), "an error was swallowed");
    }
    /// the tag and every conversion are the value's own
    fn h_dyn_casts() {
        let o = Odd::any();
        rt::reach(1);
        let v: &DynV = &o;
        o.agrees(v);
        o.agrees(&v);
        o.agrees(&o as &(dyn sval_dynamic::Value + Send));
        o.agrees(&o as &(dyn sval_dynamic::Value + Send + Sync));
        let b: Box<DynV> = Box::new(&o);
        o.agrees(&*b);
        o.agrees(&b as &DynV);
    }
    /// also when they are the defaults
    fn h_dyn_casts_default() {
        let mut g = Gen { nodes: 2, kinds: &[K::Null, K::Bool, K::I64, K::F64, K::F32, K::Frags, K::BinFrags, K::Tag, K::Tagged, K::Enum, K::Seq],
            hdr: H::None, plain: false, max_children: 1, ..Gen::default() };
        let n = g.value();
        let v: &DynV = &n;
        rt::reach(1);
        check!(v.to_bool() == n.to_bool(), "to_bool differs");
        check!(v.to_i64() == n.to_i64() && v.to_u64() == n.to_u64(), "to_i64 or to_u64 differs");
        check!(v.to_i8() == n.to_i8() && v.to_u8() == n.to_u8(), "to_i8 or to_u8 differs");
        check!(v.to_i128() == n.to_i128() && v.to_u128() == n.to_u128(), "to_i128 or to_u128 differs");
        check!(v.to_f64().map(f64::to_bits) == n.to_f64().map(f64::to_bits), "to_f64 differs");
        check!(v.to_text() == n.to_text(), "to_text differs");
        check!(v.to_binary() == n.to_binary(), "to_binary differs");
        check!(tag_code(v.tag().as_ref()) == tag_code(n.tag().as_ref()), "tag differs");
    }
}
