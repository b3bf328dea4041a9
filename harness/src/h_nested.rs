//! Streaming through the recursive API.
use crate::node::{Gen, Hdr, Node, H, K};
use crate::rec::{record, same, Cfg, Rec, MERGED};
use crate::shapes::{chain, spread, wide};
use crate::{check, harnesses, rt};
use std::cell::RefCell;
use sval::{Index, Label, Stream as _, Tag, Value};
use sval_nested::{Error, Result, Stream, StreamEnum, StreamMap, StreamRecord, StreamSeq, StreamTuple, ValueRef};

/// The nested API doesn't carry standalone tag hints, and record tuples reach it as records.
const CFG: Cfg = Cfg { no_tag_hints: true, rt_as_record: true, ..MERGED };

/// Every callback of the nested API is forwarded to a recorder of flat streams.
#[derive(Clone, Copy)]
struct To<'r> {
    rec: &'r RefCell<Rec>,
    /// Values inside containers are streamed to the recorder directly, not through the nested API.
    flat: bool,
}

fn e(r: sval::Result) -> Result {
    r.map_err(|_| Error::invalid_value("the recorder failed"))
}

impl<'r> To<'r> {
    fn child<'sval, V: ValueRef<'sval>>(self, v: V) -> Result {
        if self.flat {
            e(v.stream_ref(&mut FlatRec(self.rec)))
        } else {
            sval_nested::stream(self, v)
        }
    }

    fn child_computed<V: Value>(self, v: V) -> Result {
        if self.flat {
            e(FlatRec(self.rec).value_computed(&v))
        } else {
            sval_nested::stream_computed(self, v)
        }
    }
}

/// `Rec` behind a `RefCell`.
struct FlatRec<'r>(&'r RefCell<Rec>);

macro_rules! fwd {
    ($($name:ident($($arg:ident: $t:ty),*);)*) => {
        impl<'r, 'sval> sval::Stream<'sval> for FlatRec<'r> {
            $(fn $name(&mut self, $($arg: $t),*) -> sval::Result {
                self.0.borrow_mut().$name($($arg),*)
            })*
            fn text_fragment(&mut self, f: &'sval str) -> sval::Result {
                self.0.borrow_mut().text_fragment_computed(f)
            }
            fn binary_fragment(&mut self, f: &'sval [u8]) -> sval::Result {
                self.0.borrow_mut().binary_fragment_computed(f)
            }
        }
    };
}

fwd! {
    null();
    bool(v: bool);
    u8(v: u8);
    u16(v: u16);
    u32(v: u32);
    u64(v: u64);
    u128(v: u128);
    i8(v: i8);
    i16(v: i16);
    i32(v: i32);
    i64(v: i64);
    i128(v: i128);
    f32(v: f32);
    f64(v: f64);
    text_begin(n: Option<usize>);
    text_fragment_computed(f: &str);
    text_end();
    binary_begin(n: Option<usize>);
    binary_fragment_computed(f: &[u8]);
    binary_end();
    seq_begin(n: Option<usize>);
    seq_value_begin();
    seq_value_end();
    seq_end();
    map_begin(n: Option<usize>);
    map_key_begin();
    map_key_end();
    map_value_begin();
    map_value_end();
    map_end();
    tag_hint(t: &Tag);
    tag(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    tagged_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    tagged_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    enum_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    enum_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    record_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>);
    record_value_begin(t: Option<&Tag>, l: &Label);
    record_value_end(t: Option<&Tag>, l: &Label);
    record_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    tuple_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>);
    tuple_value_begin(t: Option<&Tag>, i: &Index);
    tuple_value_end(t: Option<&Tag>, i: &Index);
    tuple_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    record_tuple_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>);
    record_tuple_value_begin(t: Option<&Tag>, l: &Label, i: &Index);
    record_tuple_value_end(t: Option<&Tag>, l: &Label, i: &Index);
    record_tuple_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
}

/// A header kept for the end of a container.
type Keep = (Option<Tag>, Option<Label<'static>>, Option<Index>);

fn own(l: &Label) -> Label<'static> {
    let s: &'static str = Box::leak(l.as_str().to_owned().into_boxed_str());
    let n = if l.as_static_str().is_some() { Label::new(s) } else { Label::new_computed(s) };
    match l.tag() {
        Some(t) => n.with_tag(t),
        None => n,
    }
}

fn keep(t: &Option<Tag>, l: &Option<Label>, i: &Option<Index>) -> Keep {
    (t.clone(), l.as_ref().map(own), i.clone())
}

struct ToSeq<'r>(To<'r>);
struct ToMap<'r>(To<'r>);
struct ToTuple<'r>(To<'r>, Keep);
struct ToRecord<'r>(To<'r>, Keep);
/// The header of this enum, and how it ends.
struct ToEnum<'r>(To<'r>, Keep);

macro_rules! scalars {
    ($($name:ident: $t:ty),*) => {
        $(fn $name(self, v: $t) -> Result<()> {
            e(self.rec.borrow_mut().$name(v))
        })*
    };
}

impl<'r, 'sval> Stream<'sval> for To<'r> {
    type Ok = ();
    type Seq = ToSeq<'r>;
    type Map = ToMap<'r>;
    type Tuple = ToTuple<'r>;
    type Record = ToRecord<'r>;
    type Enum = ToEnum<'r>;

    fn null(self) -> Result<()> {
        e(self.rec.borrow_mut().null())
    }
    scalars!(bool: bool, u8: u8, u16: u16, u32: u32, u64: u64, u128: u128, i8: i8, i16: i16, i32: i32, i64: i64,
        i128: i128, f32: f32, f64: f64);
    fn text(self, v: &'sval str) -> Result<()> {
        self.text_computed(v)
    }
    fn text_computed(self, v: &str) -> Result<()> {
        let mut r = self.rec.borrow_mut();
        e(r.text_begin(Some(v.len())))?;
        e(r.text_fragment_computed(v))?;
        e(r.text_end())
    }
    fn binary(self, v: &'sval [u8]) -> Result<()> {
        self.binary_computed(v)
    }
    fn binary_computed(self, v: &[u8]) -> Result<()> {
        let mut r = self.rec.borrow_mut();
        e(r.binary_begin(Some(v.len())))?;
        e(r.binary_fragment_computed(v))?;
        e(r.binary_end())
    }
    fn tag(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<()> {
        e(self.rec.borrow_mut().tag(t.as_ref(), l.as_ref(), i.as_ref()))
    }
    fn tagged<V: ValueRef<'sval>>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<()> {
        e(self.rec.borrow_mut().tagged_begin(t.as_ref(), l.as_ref(), i.as_ref()))?;
        self.child(v)?;
        e(self.rec.borrow_mut().tagged_end(t.as_ref(), l.as_ref(), i.as_ref()))
    }
    fn tagged_computed<V: Value>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<()> {
        e(self.rec.borrow_mut().tagged_begin(t.as_ref(), l.as_ref(), i.as_ref()))?;
        self.child_computed(v)?;
        e(self.rec.borrow_mut().tagged_end(t.as_ref(), l.as_ref(), i.as_ref()))
    }
    fn seq_begin(self, n: Option<usize>) -> Result<ToSeq<'r>> {
        e(self.rec.borrow_mut().seq_begin(n))?;
        Ok(ToSeq(self))
    }
    fn map_begin(self, n: Option<usize>) -> Result<ToMap<'r>> {
        e(self.rec.borrow_mut().map_begin(n))?;
        Ok(ToMap(self))
    }
    fn tuple_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<ToTuple<'r>> {
        e(self.rec.borrow_mut().tuple_begin(t.as_ref(), l.as_ref(), i.as_ref(), n))?;
        Ok(ToTuple(self, keep(&t, &l, &i)))
    }
    fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<ToRecord<'r>> {
        e(self.rec.borrow_mut().record_begin(t.as_ref(), l.as_ref(), i.as_ref(), n))?;
        Ok(ToRecord(self, keep(&t, &l, &i)))
    }
    fn enum_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<ToEnum<'r>> {
        e(self.rec.borrow_mut().enum_begin(t.as_ref(), l.as_ref(), i.as_ref()))?;
        Ok(ToEnum(self, keep(&t, &l, &i)))
    }
}

impl<'r, 'sval> StreamSeq<'sval> for ToSeq<'r> {
    type Ok = ();
    fn value<V: ValueRef<'sval>>(&mut self, v: V) -> Result {
        e(self.0.rec.borrow_mut().seq_value_begin())?;
        self.0.child(v)?;
        e(self.0.rec.borrow_mut().seq_value_end())
    }
    fn value_computed<V: Value>(&mut self, v: V) -> Result {
        e(self.0.rec.borrow_mut().seq_value_begin())?;
        self.0.child_computed(v)?;
        e(self.0.rec.borrow_mut().seq_value_end())
    }
    fn end(self) -> Result<()> {
        e(self.0.rec.borrow_mut().seq_end())
    }
}

impl<'r, 'sval> StreamMap<'sval> for ToMap<'r> {
    type Ok = ();
    fn key<V: ValueRef<'sval>>(&mut self, v: V) -> Result {
        e(self.0.rec.borrow_mut().map_key_begin())?;
        self.0.child(v)?;
        e(self.0.rec.borrow_mut().map_key_end())
    }
    fn key_computed<V: Value>(&mut self, v: V) -> Result {
        e(self.0.rec.borrow_mut().map_key_begin())?;
        self.0.child_computed(v)?;
        e(self.0.rec.borrow_mut().map_key_end())
    }
    fn value<V: ValueRef<'sval>>(&mut self, v: V) -> Result {
        e(self.0.rec.borrow_mut().map_value_begin())?;
        self.0.child(v)?;
        e(self.0.rec.borrow_mut().map_value_end())
    }
    fn value_computed<V: Value>(&mut self, v: V) -> Result {
        e(self.0.rec.borrow_mut().map_value_begin())?;
        self.0.child_computed(v)?;
        e(self.0.rec.borrow_mut().map_value_end())
    }
    fn end(self) -> Result<()> {
        e(self.0.rec.borrow_mut().map_end())
    }
}

impl<'r, 'sval> StreamTuple<'sval> for ToTuple<'r> {
    type Ok = ();
    fn value<V: ValueRef<'sval>>(&mut self, t: Option<Tag>, i: Index, v: V) -> Result {
        e(self.0.rec.borrow_mut().tuple_value_begin(t.as_ref(), &i))?;
        self.0.child(v)?;
        e(self.0.rec.borrow_mut().tuple_value_end(t.as_ref(), &i))
    }
    fn value_computed<V: Value>(&mut self, t: Option<Tag>, i: Index, v: V) -> Result {
        e(self.0.rec.borrow_mut().tuple_value_begin(t.as_ref(), &i))?;
        self.0.child_computed(v)?;
        e(self.0.rec.borrow_mut().tuple_value_end(t.as_ref(), &i))
    }
    fn end(self) -> Result<()> {
        let (t, l, i) = self.1;
        e(self.0.rec.borrow_mut().tuple_end(t.as_ref(), l.as_ref(), i.as_ref()))
    }
}

impl<'r, 'sval> StreamRecord<'sval> for ToRecord<'r> {
    type Ok = ();
    fn value<V: ValueRef<'sval>>(&mut self, t: Option<Tag>, l: Label, v: V) -> Result {
        e(self.0.rec.borrow_mut().record_value_begin(t.as_ref(), &l))?;
        self.0.child(v)?;
        e(self.0.rec.borrow_mut().record_value_end(t.as_ref(), &l))
    }
    fn value_computed<V: Value>(&mut self, t: Option<Tag>, l: Label, v: V) -> Result {
        e(self.0.rec.borrow_mut().record_value_begin(t.as_ref(), &l))?;
        self.0.child_computed(v)?;
        e(self.0.rec.borrow_mut().record_value_end(t.as_ref(), &l))
    }
    fn end(self) -> Result<()> {
        let (t, l, i) = self.1;
        e(self.0.rec.borrow_mut().record_end(t.as_ref(), l.as_ref(), i.as_ref()))
    }
}

fn enum_end(to: To, k: &Keep) -> Result {
    e(to.rec.borrow_mut().enum_end(k.0.as_ref(), k.1.as_ref(), k.2.as_ref()))
}

/// A tuple or record variant ends its enum too.
struct Variant<T>(T, Keep);

impl<'r, 'sval> StreamTuple<'sval> for Variant<ToTuple<'r>> {
    type Ok = ();
    fn value<V: ValueRef<'sval>>(&mut self, t: Option<Tag>, i: Index, v: V) -> Result {
        self.0.value(t, i, v)
    }
    fn value_computed<V: Value>(&mut self, t: Option<Tag>, i: Index, v: V) -> Result {
        self.0.value_computed(t, i, v)
    }
    fn end(self) -> Result<()> {
        let to = (self.0).0;
        self.0.end()?;
        enum_end(to, &self.1)
    }
}

impl<'r, 'sval> StreamRecord<'sval> for Variant<ToRecord<'r>> {
    type Ok = ();
    fn value<V: ValueRef<'sval>>(&mut self, t: Option<Tag>, l: Label, v: V) -> Result {
        self.0.value(t, l, v)
    }
    fn value_computed<V: Value>(&mut self, t: Option<Tag>, l: Label, v: V) -> Result {
        self.0.value_computed(t, l, v)
    }
    fn end(self) -> Result<()> {
        let to = (self.0).0;
        self.0.end()?;
        enum_end(to, &self.1)
    }
}

impl<'r, 'sval> StreamEnum<'sval> for ToEnum<'r> {
    type Ok = ();
    type Tuple = Variant<ToTuple<'r>>;
    type Record = Variant<ToRecord<'r>>;
    type Nested = ToEnum<'r>;

    fn tag(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<()> {
        self.0.tag(t, l, i)?;
        enum_end(self.0, &self.1)
    }
    fn tagged<V: ValueRef<'sval>>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<()> {
        self.0.tagged(t, l, i, v)?;
        enum_end(self.0, &self.1)
    }
    fn tagged_computed<V: Value>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<()> {
        self.0.tagged_computed(t, l, i, v)?;
        enum_end(self.0, &self.1)
    }
    fn tuple_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<Self::Tuple> {
        Ok(Variant(self.0.tuple_begin(t, l, i, n)?, self.1))
    }
    fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<Self::Record> {
        Ok(Variant(self.0.record_begin(t, l, i, n)?, self.1))
    }
    fn nested<F: FnOnce(Self::Nested) -> Result<()>>(
        self,
        t: Option<Tag>,
        l: Option<Label>,
        i: Option<Index>,
        variant: F,
    ) -> Result<()> {
        let k = keep(&t, &l, &i);
        variant(self.0.enum_begin(t, l, i).map(|s| ToEnum(s.0, k))?)?;
        enum_end(self.0, &self.1)
    }
    fn empty(self) -> Result<()> {
        enum_end(self.0, &self.1)
    }
}

// ---- the least a nested stream can implement ----

/// Only the required methods; everything else goes through the defaults.
#[derive(Clone, Copy)]
struct Least<'r>(&'r RefCell<Rec>);
struct LSeq<'r>(Least<'r>);
struct LMap<'r>(Least<'r>);
struct LTuple<'r>(Least<'r>, Option<Keep>, Keep);
struct LRecord<'r>(Least<'r>, Option<Keep>, Keep);
struct LEnum<'r>(Least<'r>, Keep);

impl<'r, 'sval> Stream<'sval> for Least<'r> {
    type Ok = ();
    type Seq = LSeq<'r>;
    type Map = LMap<'r>;
    type Tuple = LTuple<'r>;
    type Record = LRecord<'r>;
    type Enum = LEnum<'r>;
    fn null(self) -> Result<()> {
        e(self.0.borrow_mut().null())
    }
    fn bool(self, v: bool) -> Result<()> {
        e(self.0.borrow_mut().bool(v))
    }
    fn i64(self, v: i64) -> Result<()> {
        e(self.0.borrow_mut().i64(v))
    }
    fn f64(self, v: f64) -> Result<()> {
        e(self.0.borrow_mut().f64(v))
    }
    fn text_computed(self, v: &str) -> Result<()> {
        let mut r = self.0.borrow_mut();
        e(r.text_begin(Some(v.len())))?;
        e(r.text_fragment_computed(v))?;
        e(r.text_end())
    }
    fn seq_begin(self, n: Option<usize>) -> Result<LSeq<'r>> {
        e(self.0.borrow_mut().seq_begin(n))?;
        Ok(LSeq(self))
    }
    fn map_begin(self, n: Option<usize>) -> Result<LMap<'r>> {
        e(self.0.borrow_mut().map_begin(n))?;
        Ok(LMap(self))
    }
    fn tuple_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<LTuple<'r>> {
        e(self.0.borrow_mut().tuple_begin(t.as_ref(), l.as_ref(), i.as_ref(), n))?;
        Ok(LTuple(self, None, keep(&t, &l, &i)))
    }
    fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<LRecord<'r>> {
        e(self.0.borrow_mut().record_begin(t.as_ref(), l.as_ref(), i.as_ref(), n))?;
        Ok(LRecord(self, None, keep(&t, &l, &i)))
    }
    fn enum_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<LEnum<'r>> {
        e(self.0.borrow_mut().enum_begin(t.as_ref(), l.as_ref(), i.as_ref()))?;
        Ok(LEnum(self, keep(&t, &l, &i)))
    }
}

impl<'r, 'sval> StreamSeq<'sval> for LSeq<'r> {
    type Ok = ();
    fn value_computed<V: Value>(&mut self, v: V) -> Result {
        let r = (self.0).0;
        e(r.borrow_mut().seq_value_begin())?;
        sval_nested::stream_computed(self.0, v)?;
        let x = e(r.borrow_mut().seq_value_end());
        x
    }
    fn end(self) -> Result<()> {
        e((self.0).0.borrow_mut().seq_end())
    }
}

impl<'r, 'sval> StreamMap<'sval> for LMap<'r> {
    type Ok = ();
    fn key_computed<V: Value>(&mut self, v: V) -> Result {
        let r = (self.0).0;
        e(r.borrow_mut().map_key_begin())?;
        sval_nested::stream_computed(self.0, v)?;
        let x = e(r.borrow_mut().map_key_end());
        x
    }
    fn value_computed<V: Value>(&mut self, v: V) -> Result {
        let r = (self.0).0;
        e(r.borrow_mut().map_value_begin())?;
        sval_nested::stream_computed(self.0, v)?;
        let x = e(r.borrow_mut().map_value_end());
        x
    }
    fn end(self) -> Result<()> {
        e((self.0).0.borrow_mut().map_end())
    }
}

fn close(to: Least, end: &Option<Keep>) -> Result {
    match end {
        Some(k) => e(to.0.borrow_mut().enum_end(k.0.as_ref(), k.1.as_ref(), k.2.as_ref())),
        None => Ok(()),
    }
}

impl<'r, 'sval> StreamTuple<'sval> for LTuple<'r> {
    type Ok = ();
    fn value_computed<V: Value>(&mut self, t: Option<Tag>, i: Index, v: V) -> Result {
        let r = (self.0).0;
        e(r.borrow_mut().tuple_value_begin(t.as_ref(), &i))?;
        sval_nested::stream_computed(self.0, v)?;
        let x = e(r.borrow_mut().tuple_value_end(t.as_ref(), &i));
        x
    }
    fn end(self) -> Result<()> {
        e((self.0).0.borrow_mut().tuple_end(self.2 .0.as_ref(), self.2 .1.as_ref(), self.2 .2.as_ref()))?;
        close(self.0, &self.1)
    }
}

impl<'r, 'sval> StreamRecord<'sval> for LRecord<'r> {
    type Ok = ();
    fn value_computed<V: Value>(&mut self, t: Option<Tag>, l: Label, v: V) -> Result {
        let r = (self.0).0;
        e(r.borrow_mut().record_value_begin(t.as_ref(), &l))?;
        sval_nested::stream_computed(self.0, v)?;
        let x = e(r.borrow_mut().record_value_end(t.as_ref(), &l));
        x
    }
    fn end(self) -> Result<()> {
        e((self.0).0.borrow_mut().record_end(self.2 .0.as_ref(), self.2 .1.as_ref(), self.2 .2.as_ref()))?;
        close(self.0, &self.1)
    }
}

impl<'r, 'sval> StreamEnum<'sval> for LEnum<'r> {
    type Ok = ();
    type Tuple = LTuple<'r>;
    type Record = LRecord<'r>;
    type Nested = LEnum<'r>;
    fn tag(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<()> {
        e((self.0).0.borrow_mut().tag(t.as_ref(), l.as_ref(), i.as_ref()))?;
        close(self.0, &Some(self.1))
    }
    fn tagged_computed<V: Value>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<()> {
        let r = (self.0).0;
        e(r.borrow_mut().tagged_begin(t.as_ref(), l.as_ref(), i.as_ref()))?;
        sval_nested::stream_computed(self.0, v)?;
        e(r.borrow_mut().tagged_end(t.as_ref(), l.as_ref(), i.as_ref()))?;
        close(self.0, &Some(self.1))
    }
    fn tuple_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<LTuple<'r>> {
        let s = self.0.tuple_begin(t, l, i, n)?;
        Ok(LTuple(s.0, Some(self.1), s.2))
    }
    fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<LRecord<'r>> {
        let s = self.0.record_begin(t, l, i, n)?;
        Ok(LRecord(s.0, Some(self.1), s.2))
    }
    fn nested<F: FnOnce(Self::Nested) -> Result<()>>(
        self,
        t: Option<Tag>,
        l: Option<Label>,
        i: Option<Index>,
        variant: F,
    ) -> Result<()> {
        variant(self.0.enum_begin(t, l, i)?)?;
        close(self.0, &Some(self.1))
    }
    fn empty(self) -> Result<()> {
        close(self.0, &Some(self.1))
    }
}

// ---- the checks ----

/// How the value is handed over.
fn run(n: &'static Node, to: To, way: usize) -> Result {
    match way {
        0 => sval_nested::stream_ref(to, n),
        1 => sval_nested::stream_computed(to, n),
        _ => to.value_ref(n),
    }
}

fn leak(n: Node) -> &'static Node {
    Box::leak(Box::new(n))
}

fn through(n: Node, way: usize, flat: bool) {
    through_if(n, way, flat, !crate::NOALLOC)
}

/// Must succeed, with or without an allocator.
pub fn through_must(n: Node) {
    through_if(n, 0, false, true)
}

fn through_if(n: Node, way: usize, flat: bool, must: bool) {
    let n = leak(n);
    let (want, ok) = record(CFG, n);
    check!(ok && want.complete(), "the value is not well formed");
    let rec = RefCell::new(Rec::new(CFG));
    let ok = run(n, To { rec: &rec, flat }, way).is_ok();
    if !must && !ok {
        return rt::reach(2);
    }
    check!(ok, "a value failed to stream through the nested API");
    let got = rec.into_inner();
    check!(got.complete(), "the nested API produced a malformed stream");
    same(&want, &got, "the nested API changed the value");
}

const ALL: &[K] = &[
    K::Null, K::Bool, K::Int, K::F64, K::F32, K::Frags, K::BinFrags, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Seq,
    K::Map, K::Record, K::Tuple, K::RecordTuple, K::Hint, K::ByValue, K::ByComputed,
];

/// What the required methods see: the value without tags, with wide types narrowed.
fn least(n: &Node) -> Node {
    fn num(v: i128) -> Node {
        match i64::try_from(v) {
            Ok(v) => Node::I64(v),
            Err(_) => Node::Text(None, vec![(true, decimal(v < 0, v.unsigned_abs()))]),
        }
    }
    fn decimal(neg: bool, mut v: u128) -> &'static str {
        let mut d = Vec::new();
        loop {
            d.push(b'0' + (v % 10) as u8);
            v /= 10;
            if v == 0 {
                break;
            }
        }
        if neg {
            d.push(b'-');
        }
        d.reverse();
        std::str::from_utf8(Box::leak(d.into_boxed_slice())).unwrap()
    }
    match n {
        Node::U8(v) => num(*v as i128),
        Node::U16(v) => num(*v as i128),
        Node::U32(v) => num(*v as i128),
        Node::U64(v) => num(*v as i128),
        Node::U128(v) => match i128::try_from(*v) {
            Ok(v) => num(v),
            Err(_) => Node::Text(None, vec![(true, decimal(false, *v))]),
        },
        Node::I8(v) => num(*v as i128),
        Node::I16(v) => num(*v as i128),
        Node::I32(v) => num(*v as i128),
        Node::I64(v) => num(*v as i128),
        Node::I128(v) => num(*v),
        Node::F32(v) => Node::F64(*v as f64),
        Node::Bin(_, frags) => {
            let b: Vec<Node> = frags.iter().flat_map(|(_, f)| f.iter()).map(|b| Node::I64(*b as i64)).collect();
            Node::Seq(Some(b.len()), b)
        }
        Node::Tag(h) => match (&h.tag, &h.label) {
            (Some(t), _) if *t == sval::tags::RUST_OPTION_NONE => Node::Null,
            (_, Some(l)) => Node::Text(None, vec![(true, l.s)]),
            _ => Node::Null,
        },
        Node::Tagged(_, v) => least(v),
        Node::Hint(_, v) | Node::ByValue(v) | Node::ByComputed(v) => least(v),
        Node::Seq(n, v) => Node::Seq(*n, v.iter().map(least).collect()),
        Node::Map(n, v) => Node::Map(*n, v.iter().map(|(k, v)| (least(k), least(v))).collect()),
        Node::Tuple(h, n, v) => {
            Node::Tuple(h.clone(), *n, v.iter().map(|(t, i, v)| (t.clone(), i.clone(), least(v))).collect())
        }
        Node::Record(h, n, v) => {
            Node::Record(h.clone(), *n, v.iter().map(|(t, l, v)| (t.clone(), l.clone(), least(v))).collect())
        }
        Node::RecordTuple(h, n, v) => {
            Node::Record(h.clone(), *n, v.iter().map(|(t, l, _, v)| (t.clone(), l.clone(), least(v))).collect())
        }
        Node::Enum(h, v) => Node::Enum(
            h.clone(),
            v.as_ref().map(|v| {
                let mut v = &**v;
                while let Node::Hint(_, x) | Node::ByValue(x) | Node::ByComputed(x) = v {
                    v = x;
                }
                Box::new(match v {
                    Node::Tag(h) => Node::Tag(h.clone()),
                    Node::Tagged(h, v) => Node::Tagged(h.clone(), Box::new(least(v))),
                    v => least(v),
                })
            }),
        ),
        n => n.clone(),
    }
}

fn through_least(n: Node) {
    let n = leak(n);
    let want = least(n);
    let (want, ok) = record(CFG, &want);
    check!(ok && want.complete(), "the value is not well formed");
    let rec = RefCell::new(Rec::new(CFG));
    let ok = sval_nested::stream_ref(Least(&rec), n).is_ok();
    if crate::NOALLOC && !ok {
        return rt::reach(2);
    }
    check!(ok, "a value failed to stream through the nested API");
    let got = rec.into_inner();
    check!(got.complete(), "the nested API produced a malformed stream");
    same(&got, &want, "the defaults of the nested API changed the value");
}

/// A value that streams something and then fails.
struct Late(Node);

impl Value for Late {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.value(&self.0)?;
        Err(sval::Error::new())
    }
}

/// A sequence of one such value, and other places for it.
struct Around(usize, Late);

impl Value for Around {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        let l = Label::new("x");
        match self.0 {
            0 => s.value(&self.1),
            1 => {
                s.seq_begin(None)?;
                s.seq_value_begin()?;
                s.value(&self.1)?;
                s.seq_value_end()?;
                s.seq_end()
            }
            2 => {
                s.record_begin(None, None, None, None)?;
                s.record_value_begin(None, &l)?;
                s.value_computed(&self.1)?;
                s.record_value_end(None, &l)?;
                s.record_end(None, None, None)
            }
            3 => {
                s.tagged_begin(None, Some(&l), None)?;
                s.value(&self.1)?;
                s.tagged_end(None, Some(&l), None)
            }
            4 => {
                s.enum_begin(None, Some(&l), None)?;
                s.tagged_begin(None, Some(&l), None)?;
                s.value_computed(&self.1)?;
                s.tagged_end(None, Some(&l), None)?;
                s.enum_end(None, Some(&l), None)
            }
            _ => {
                s.enum_begin(None, Some(&l), None)?;
                s.value(&self.1)?;
                s.enum_end(None, Some(&l), None)
            }
        }
    }
}

harnesses! {
    /// Structures
    fn h_nested_main() {
        let n = Gen { nodes: 4, hdr: H::None, ..Gen::default() }.value();
        through(n, 0, false);
        rt::reach(1);
    }
    /// every method that streams a value, in every place a value can be
    fn h_nested_leaf() {
        let n = crate::shapes::leaf_within();
        if rt::flag() {
            through(n, rt::choice(3), false);
        } else {
            through_least(n);
        }
        rt::reach(1);
    }
    /// everything said about every kind of value, in every place
    fn h_nested_full() {
        let n = crate::shapes::full_within();
        match rt::choice(4) {
            0 => through_least(n),
            1 => through(n, 0, true),
            2 => through(n, 1, false),
            _ => through(n, 0, false),
        }
        rt::reach(1);
    }
    fn h_nested_deep_leaf() {
        through(crate::shapes::deep_leaf(6), 0, false);
        rt::reach(1);
    }
    fn h_nested_full2() {
        let n = crate::shapes::full_twice();
        if rt::flag() {
            through(n, 0, false);
        } else {
            through_least(n);
        }
        rt::reach(1);
    }
    fn h_nested_leaf2() {
        let n = crate::shapes::two_leaves();
        through(n, 0, false);
        rt::reach(1);
    }
    fn h_nested_deep() {
        let n = Gen { nodes: 5, hdr: H::None, max_children: 2, keys: &[K::Text],
            kinds: &[K::Null, K::Text, K::Tagged, K::Enum, K::Seq, K::Map, K::Record], ..Gen::default() }.value();
        through(n, 0, false);
        rt::reach(1);
    }
    /// Every kind, headers and hints
    fn h_nested_all() {
        let way = rt::choice(3);
        let n = Gen { nodes: 2, hdr: H::All, kinds: ALL, plain: false, sizes: true, value_tags: true, label_tags: true,
            max_children: 1, text_len: 1, ..Gen::default() }.value();
        through(n, way, false);
        rt::reach(1);
    }
    fn h_nested_hdr() {
        let n = Gen { nodes: 2, hdr: H::All, kinds: &[K::Null, K::I64, K::Text, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Seq,
            K::Map, K::Record, K::Tuple, K::RecordTuple], plain: true, sizes: true, value_tags: true,
            max_children: 1, ..Gen::default() }.value();
        through(n, 0, false);
        rt::reach(1);
    }
    fn h_nested_payload() {
        let n = Gen { nodes: 1, hdr: H::None, kinds: ALL, plain: false, text_len: 2, ..Gen::default() }.value();
        let l = crate::node::Lab { s: rt::letters(1), is_static: rt::flag(), tag: None };
        let h = Hdr { label: Some(l.clone()), ..Hdr::default() };
        let n = match rt::choice(5) {
            0 => n,
            1 => Node::Seq(None, vec![n]),
            2 => Node::Tagged(h, Box::new(n)),
            3 => Node::Record(Hdr::default(), None, vec![(None, l, n)]),
            _ => Node::Enum(Hdr::default(), Some(Box::new(Node::Tagged(h, Box::new(n))))),
        };
        through(n, rt::choice(3), rt::flag());
        rt::reach(1);
    }
    fn h_nested_kinds() {
        let n = Gen { nodes: 3, hdr: H::None, kinds: ALL, max_children: 2, text_len: 1, ..Gen::default() }.value();
        through(n, rt::choice(2), false);
        rt::reach(1);
    }
    /// Enums and their variants
    fn h_nested_enum() {
        let n = Gen { nodes: 4, hdr: H::None, kinds: &[K::Null, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Record, K::Tuple,
            K::Seq, K::ByValue, K::ByComputed], max_children: 2, ..Gen::default() }.of(K::Enum);
        through(n, rt::choice(2), false);
        rt::reach(1);
    }
    fn h_nested_enum_hdr() {
        let mut g = Gen { nodes: 3, hdr: H::All, kinds: &[K::Null, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Record, K::Tuple],
            max_children: 1, ..Gen::default() };
        let n = g.of(K::Enum);
        through(n, 0, false);
        rt::reach(1);
    }
    fn h_nested_enum_lab() {
        let n = Gen { nodes: 3, hdr: H::LabelIndex, kinds: &[K::Null, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Record, K::Tuple],
            max_children: 1, ..Gen::default() }.of(K::Enum);
        through(n, 0, false);
        rt::reach(1);
    }
    /// What is inside containers is a well-formed value of its own
    fn h_nested_flat() {
        let n = Gen { nodes: 4, hdr: H::None, ..Gen::default() }.value();
        through(n, 0, true);
        rt::reach(1);
    }
    fn h_nested_flat_all() {
        let n = Gen { nodes: 3, hdr: H::None, kinds: ALL, max_children: 2, text_len: 1, ..Gen::default() }.value();
        through(n, rt::choice(2), true);
        rt::reach(1);
    }
    /// Sizes
    fn h_nested_wide() {
        let n = [9, 33, 70][rt::choice(3)];
        let w = wide(n, rt::choice(5));
        let n = match rt::choice(3) {
            0 => w,
            1 => Node::Seq(None, vec![w]),
            _ => Node::Enum(Hdr::default(), Some(Box::new(Node::Tagged(Hdr::default(), Box::new(w))))),
        };
        through(n, 0, rt::flag());
        rt::reach(1);
    }
    fn h_nested_chain() {
        let n = chain([6, 12][rt::choice(2)]);
        through(n, 0, false);
        rt::reach(1);
    }
    fn h_nested_big() {
        let k = rt::choice(crate::shapes::BIG);
        let n = crate::shapes::big_upto(k, 1100, 300, 70, true, false);
        let n = if rt::flag() { Node::Seq(None, vec![n]) } else { n };
        through(n, 0, rt::flag());
        rt::reach(1);
    }
    fn h_nested_long() {
        let t = crate::shapes::one_byte_text([40, 130][rt::choice(2)]);
        let n = Node::Text(Some(t.len()), vec![(rt::flag(), t), (rt::flag(), rt::letters(1))]);
        let n = match rt::choice(3) {
            0 => n,
            1 => Node::Seq(None, vec![n]),
            _ => Node::Seq(None, vec![Node::Seq(None, vec![n])]),
        };
        through(n, 0, rt::flag());
        rt::reach(1);
    }
    /// A stream with only the required methods
    fn h_nested_least() {
        let n = Gen { nodes: 4, hdr: H::None, ..Gen::default() }.value();
        through_least(n);
        rt::reach(1);
    }
    fn h_nested_least_all() {
        let n = Gen { nodes: 3, hdr: H::Label, small_bytes: true, kinds: &[K::Null, K::Bool, K::F64, K::F32, K::Frags, K::BinFrags, K::Tag,
            K::Tagged, K::Enum, K::EmptyEnum, K::Seq, K::Map, K::Record, K::Tuple, K::RecordTuple, K::Hint, K::ByValue],
            max_children: 1, ..Gen::default() }.value();
        through_least(n);
        rt::reach(1);
    }
    /// Every integer that fits in 64 bits, and windows around the edge
    fn h_nested_least_int() {
        let n = match rt::choice(10) {
            0 => Node::U8(rt::u8_()),
            1 => Node::U16(rt::u16_()),
            2 => Node::U32(rt::u32_()),
            3 => { let v = rt::u64_(); rt::assume(v <= i64::MAX as u64); Node::U64(v) }
            4 => { let v = rt::u128_(); rt::assume(v <= i64::MAX as u128); Node::U128(v) }
            5 => Node::I8(rt::i8_()),
            6 => Node::I16(rt::i16_()),
            7 => Node::I32(rt::i32_()),
            8 => Node::I64(rt::i64_()),
            _ => { let v = rt::i128_(); rt::assume(v <= i64::MAX as i128 && v >= i64::MIN as i128); Node::I128(v) }
        };
        through_least(n);
        rt::reach(1);
    }
    fn h_nested_least_big() {
        let d = rt::u8_();
        rt::assume(d < 16);
        let n = match rt::choice(7) {
            5 => Node::U128(spread()),
            6 => Node::I128(spread() as i128),
            0 => Node::U64(i64::MAX as u64 - 7 + d as u64),
            1 => Node::U128(u128::MAX - d as u128),
            2 => Node::I128(i128::MIN + d as i128),
            3 => Node::I128(i64::MIN as i128 + 7 - d as i128),
            _ => Node::U64(u64::MAX - d as u64),
        };
        through_least(n);
        rt::reach(1);
    }
    /// Failing streams
    fn h_nested_fault() {
        let n = leak(Gen { nodes: 3, hdr: H::None, kinds: &[K::Null, K::Text, K::Tag, K::Tagged, K::Enum, K::Seq, K::Map, K::Record,
            K::Tuple], ..Gen::default() }.value());
        let (want, _) = record(CFG, n);
        let at = rt::choice(14) as u32;
        let rec = RefCell::new(Rec::failing_at(CFG, at));
        let ok = run(n, To { rec: &rec, flat: rt::flag() }, 0).is_ok();
        let got = rec.into_inner();
        check!(got.after_fail == 0, "a failed stream was called again");
        check!(ok != got.failed, "the result doesn't tell whether the stream failed");
        if got.failed {
            rt::reach(1);
        } else {
            same(&got, &want, "the nested API changed the value");
            rt::reach(2);
        }
    }
    fn h_nested_fault_full() {
        let n = leak(crate::shapes::faulty());
        let rec = RefCell::new(Rec::failing_at(CFG, rt::choice(24) as u32));
        let ok = run(n, To { rec: &rec, flat: rt::flag() }, rt::choice(2)).is_ok();
        let got = rec.into_inner();
        rt::assume(got.failed);
        check!(got.after_fail == 0, "a failed stream was called again");
        check!(!ok, "an error was lost");
        rt::reach(1);
    }
    fn h_nested_fault_big() {
        let n = leak(crate::shapes::faulty_big(70));
        let (all, _) = record(CFG, n);
        let rec = RefCell::new(Rec::failing_at(CFG, crate::shapes::fails_far(all.tokens as usize) as u32));
        let ok = run(n, To { rec: &rec, flat: rt::flag() }, rt::choice(2)).is_ok();
        let got = rec.into_inner();
        rt::assume(got.failed);
        check!(got.after_fail == 0, "a failed stream was called again");
        check!(!ok, "an error was lost");
        rt::reach(1);
    }
    fn h_nested_broken_full() {
        let n = leak(crate::shapes::breaking());
        let rec = RefCell::new(Rec::new(CFG));
        let ok = run(n, To { rec: &rec, flat: rt::flag() }, rt::choice(2)).is_ok();
        check!(!ok, "a value that fails streamed successfully");
        rt::reach(1);
    }
    /// Failing values
    fn h_nested_broken() {
        let place = rt::choice(8);
        let n = Node::Broken;
        let l = || crate::node::Lab { s: rt::letters(1), is_static: false, tag: None };
        let n = match place {
            0 => n,
            1 => Node::Seq(None, vec![Node::Null, n]),
            2 => Node::Map(None, vec![(Node::Null, n)]),
            3 => Node::Record(Hdr::default(), None, vec![(None, l(), n)]),
            4 => Node::Tagged(Hdr::default(), Box::new(n)),
            5 => Node::Enum(Hdr::default(), Some(Box::new(Node::Tagged(Hdr::default(), Box::new(n))))),
            6 => Node::Seq(None, vec![Node::Seq(None, vec![n])]),
            _ => Node::Enum(Hdr::default(), Some(Box::new(Node::Record(Hdr::default(), None, vec![(None, l(), n)])))),
        };
        let rec = RefCell::new(Rec::new(CFG));
        let ok = run(leak(n), To { rec: &rec, flat: rt::flag() }, rt::choice(2)).is_ok();
        check!(!ok, "a value that fails streamed successfully");
        rt::reach(1);
    }
    /// Values that fail after streaming something
    fn h_nested_late() {
        let place = rt::choice(6);
        let inner = if place == 5 {
            Gen { nodes: 1, hdr: H::None, kinds: &[K::Tag, K::Record, K::EmptyEnum], ..Gen::default() }.value()
        } else {
            Gen { nodes: 2, hdr: H::None, ..Gen::default() }.value()
        };
        let v: &'static Around = Box::leak(Box::new(Around(place, Late(inner))));
        let rec = RefCell::new(Rec::new(CFG));
        let to = To { rec: &rec, flat: rt::flag() };
        let ok = match rt::flag() {
            true => sval_nested::stream_ref(to, v),
            false => sval_nested::stream_computed(to, v),
        }.is_ok();
        check!(!ok, "a value that fails streamed successfully");
        rt::reach(1);
    }
}
