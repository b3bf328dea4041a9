//! The bridges to and from serde.
use crate::node::{Gen, Hdr, Lab, Node, H, K};
use crate::rec::{record, same, Rec, MERGED};
use crate::{check, harnesses, rt};
use serde::ser::{
    Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant, Serializer,
};
use std::cell::RefCell;
use std::fmt;
use sval::Index;
use sval_serde::{ToSerialize, ToValue};

// ---- a recorder of serde's data model ----

struct SRec {
    log: Vec<u8>,
    calls: u32,
    fail_at: u32,
    failed: bool,
    after_fail: u32,
}

impl SRec {
    fn new(fail_at: u32) -> RefCell<SRec> {
        RefCell::new(SRec { log: Vec::with_capacity(128), calls: 0, fail_at, failed: false, after_fail: 0 })
    }
}

#[derive(Debug)]
struct E;

impl fmt::Display for E {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}

impl std::error::Error for E {}

impl serde::ser::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E
    }
}

#[derive(Clone, Copy)]
struct To<'a>(&'a RefCell<SRec>);

type R = Result<(), E>;

impl<'a> To<'a> {
    fn op(self, code: u8, parts: &[&[u8]]) -> R {
        let mut r = self.0.borrow_mut();
        if r.failed {
            r.after_fail += 1;
        }
        if r.calls == r.fail_at {
            r.failed = true;
            return Err(E);
        }
        r.calls += 1;
        r.log.push(code);
        for p in parts {
            r.log.extend_from_slice(&(p.len() as u16).to_le_bytes());
            r.log.extend_from_slice(p);
        }
        Ok(())
    }
}

fn len(n: Option<usize>) -> [u8; 9] {
    let mut b = [0; 9];
    if let Some(n) = n {
        b[0] = 1;
        b[1..].copy_from_slice(&n.to_le_bytes());
    }
    b
}

macro_rules! scalars {
    ($($f:ident: $t:ty = $c:literal),*) => {
        $(fn $f(self, v: $t) -> R {
            self.op($c, &[&v.to_le_bytes()])
        })*
    };
}

impl<'a> Serializer for To<'a> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;

    scalars!(serialize_i8: i8 = 1, serialize_i16: i16 = 2, serialize_i32: i32 = 3, serialize_i64: i64 = 4,
        serialize_i128: i128 = 5, serialize_u8: u8 = 6, serialize_u16: u16 = 7, serialize_u32: u32 = 8,
        serialize_u64: u64 = 9, serialize_u128: u128 = 10);
    fn serialize_f32(self, v: f32) -> R {
        self.op(11, &[&v.to_bits().to_le_bytes()])
    }
    fn serialize_f64(self, v: f64) -> R {
        self.op(12, &[&v.to_bits().to_le_bytes()])
    }
    fn serialize_bool(self, v: bool) -> R {
        self.op(13, &[&[v as u8]])
    }
    fn serialize_char(self, v: char) -> R {
        self.op(14, &[&(v as u32).to_le_bytes()])
    }
    fn serialize_str(self, v: &str) -> R {
        self.op(15, &[v.as_bytes()])
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        self.op(16, &[v])
    }
    fn serialize_none(self) -> R {
        self.op(17, &[])
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R {
        self.op(18, &[])?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        self.op(19, &[])
    }
    fn serialize_unit_struct(self, name: &'static str) -> R {
        self.op(20, &[name.as_bytes()])
    }
    fn serialize_unit_variant(self, name: &'static str, i: u32, variant: &'static str) -> R {
        self.op(21, &[name.as_bytes(), &i.to_le_bytes(), variant.as_bytes()])
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, name: &'static str, v: &T) -> R {
        self.op(22, &[name.as_bytes()])?;
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, name: &'static str, i: u32, variant: &'static str, v: &T) -> R {
        self.op(23, &[name.as_bytes(), &i.to_le_bytes(), variant.as_bytes()])?;
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, E> {
        self.op(24, &[&len(n)])?;
        Ok(self)
    }
    fn serialize_tuple(self, n: usize) -> Result<Self, E> {
        self.op(25, &[&len(Some(n))])?;
        Ok(self)
    }
    fn serialize_tuple_struct(self, name: &'static str, n: usize) -> Result<Self, E> {
        self.op(26, &[name.as_bytes(), &len(Some(n))])?;
        Ok(self)
    }
    fn serialize_tuple_variant(self, name: &'static str, i: u32, variant: &'static str, n: usize) -> Result<Self, E> {
        self.op(27, &[name.as_bytes(), &i.to_le_bytes(), variant.as_bytes(), &len(Some(n))])?;
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, E> {
        self.op(28, &[&len(n)])?;
        Ok(self)
    }
    fn serialize_struct(self, name: &'static str, n: usize) -> Result<Self, E> {
        self.op(29, &[name.as_bytes(), &len(Some(n))])?;
        Ok(self)
    }
    fn serialize_struct_variant(self, name: &'static str, i: u32, variant: &'static str, n: usize) -> Result<Self, E> {
        self.op(30, &[name.as_bytes(), &i.to_le_bytes(), variant.as_bytes(), &len(Some(n))])?;
        Ok(self)
    }
}

impl<'a> SerializeSeq for To<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        self.op(40, &[])?;
        v.serialize(*self)
    }
    fn end(self) -> R {
        self.op(41, &[])
    }
}

impl<'a> SerializeTuple for To<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        self.op(42, &[])?;
        v.serialize(*self)
    }
    fn end(self) -> R {
        self.op(43, &[])
    }
}

impl<'a> SerializeTupleStruct for To<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        self.op(44, &[])?;
        v.serialize(*self)
    }
    fn end(self) -> R {
        self.op(45, &[])
    }
}

impl<'a> SerializeTupleVariant for To<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        self.op(46, &[])?;
        v.serialize(*self)
    }
    fn end(self) -> R {
        self.op(47, &[])
    }
}

impl<'a> SerializeMap for To<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        self.op(48, &[])?;
        v.serialize(*self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        self.op(49, &[])?;
        v.serialize(*self)
    }
    fn end(self) -> R {
        self.op(50, &[])
    }
}

impl<'a> SerializeStruct for To<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> R {
        self.op(51, &[k.as_bytes()])?;
        v.serialize(*self)
    }
    fn end(self) -> R {
        self.op(52, &[])
    }
}

impl<'a> SerializeStructVariant for To<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> R {
        self.op(53, &[k.as_bytes()])?;
        v.serialize(*self)
    }
    fn end(self) -> R {
        self.op(54, &[])
    }
}

// ---- values of serde's data model ----

type Name = &'static str;

#[derive(Clone)]
enum S {
    Unit,
    None,
    Some(Box<S>),
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(Name),
    /// through `collect_str`, in two writes
    Shown(Name, Name),
    Bytes(&'static [u8]),
    UnitStruct(Name),
    UnitVariant(Name, u32, Name),
    Newtype(Name, Box<S>),
    NewtypeVariant(Name, u32, Name, Box<S>),
    Seq(Option<usize>, Vec<S>),
    Tuple(usize, Vec<S>),
    TupleStruct(Name, usize, Vec<S>),
    TupleVariant(Name, u32, Name, usize, Vec<S>),
    Map(Option<usize>, Vec<(S, S)>),
    Struct(Name, usize, Vec<(Name, S)>),
    StructVariant(Name, u32, Name, usize, Vec<(Name, S)>),
    Broken,
}

struct Two(Name, Name);

impl fmt::Display for Two {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0)?;
        f.write_str(self.1)
    }
}

impl Serialize for S {
    fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            S::Unit => s.serialize_unit(),
            S::None => s.serialize_none(),
            S::Some(v) => s.serialize_some(&**v),
            S::Bool(v) => s.serialize_bool(*v),
            S::I8(v) => s.serialize_i8(*v),
            S::I16(v) => s.serialize_i16(*v),
            S::I32(v) => s.serialize_i32(*v),
            S::I64(v) => s.serialize_i64(*v),
            S::I128(v) => s.serialize_i128(*v),
            S::U8(v) => s.serialize_u8(*v),
            S::U16(v) => s.serialize_u16(*v),
            S::U32(v) => s.serialize_u32(*v),
            S::U64(v) => s.serialize_u64(*v),
            S::U128(v) => s.serialize_u128(*v),
            S::F32(v) => s.serialize_f32(*v),
            S::F64(v) => s.serialize_f64(*v),
            S::Char(v) => s.serialize_char(*v),
            S::Str(v) => s.serialize_str(v),
            S::Shown(a, b) => s.collect_str(&Two(a, b)),
            S::Bytes(v) => s.serialize_bytes(v),
            S::UnitStruct(n) => s.serialize_unit_struct(n),
            S::UnitVariant(n, i, v) => s.serialize_unit_variant(n, *i, v),
            S::Newtype(n, v) => s.serialize_newtype_struct(n, &**v),
            S::NewtypeVariant(n, i, l, v) => s.serialize_newtype_variant(n, *i, l, &**v),
            S::Seq(n, vs) => {
                let mut s = s.serialize_seq(*n)?;
                for v in vs {
                    s.serialize_element(v)?;
                }
                s.end()
            }
            S::Tuple(n, vs) => {
                let mut s = s.serialize_tuple(*n)?;
                for v in vs {
                    s.serialize_element(v)?;
                }
                s.end()
            }
            S::TupleStruct(l, n, vs) => {
                let mut s = s.serialize_tuple_struct(l, *n)?;
                for v in vs {
                    s.serialize_field(v)?;
                }
                s.end()
            }
            S::TupleVariant(l, i, v, n, vs) => {
                let mut s = s.serialize_tuple_variant(l, *i, v, *n)?;
                for v in vs {
                    s.serialize_field(v)?;
                }
                s.end()
            }
            S::Map(n, vs) => {
                let mut s = s.serialize_map(*n)?;
                for (k, v) in vs {
                    s.serialize_entry(k, v)?;
                }
                s.end()
            }
            S::Struct(l, n, vs) => {
                let mut s = s.serialize_struct(l, *n)?;
                for (k, v) in vs {
                    s.serialize_field(k, v)?;
                }
                s.end()
            }
            S::StructVariant(l, i, v, n, vs) => {
                let mut s = s.serialize_struct_variant(l, *i, v, *n)?;
                for (k, v) in vs {
                    s.serialize_field(k, v)?;
                }
                s.end()
            }
            S::Broken => Err(serde::ser::Error::custom("broken")),
        }
    }
}

fn calls<T: Serialize>(v: &T) -> (Vec<u8>, bool) {
    let r = SRec::new(u32::MAX);
    let ok = v.serialize(To(&r)).is_ok();
    (r.into_inner().log, ok)
}

// ---- what the two data models mean to each other ----

fn lab(s: Name) -> Lab {
    Lab { s, is_static: true, tag: None }
}

fn leak(s: Vec<u8>) -> Name {
    unsafe { std::str::from_utf8_unchecked(Box::leak(s.into_boxed_slice())) }
}

fn named(s: Name) -> Hdr {
    Hdr { label: Some(lab(s)), ..Hdr::default() }
}

fn variant(s: Name, i: u32) -> Hdr {
    Hdr { label: Some(lab(s)), index: Some(Index::new_u32(i)), tag: None }
}

/// The sval value of a serde value.
fn to_sval(s: &S) -> Node {
    let some = |tag, l: Name, i: usize| Hdr {
        tag: Some(tag),
        label: Some(Lab { s: l, is_static: true, tag: Some(sval::tags::VALUE_IDENT) }),
        index: Some(Index::new(i).with_tag(&sval::tags::VALUE_OFFSET)),
    };
    let text = |t: Name| Node::Text(Some(t.len()), vec![(true, t)]);
    let tuple = |vs: &Vec<S>| vs.iter().enumerate().map(|(i, v)| (None, Index::new(i), to_sval(v))).collect();
    let record = |vs: &Vec<(Name, S)>| vs.iter().map(|(k, v)| (None, lab(k), to_sval(v))).collect();
    match s {
        S::Unit => Node::Tag(Hdr { tag: Some(sval::tags::RUST_UNIT), ..Hdr::default() }),
        S::None => Node::Tag(some(sval::tags::RUST_OPTION_NONE, "None", 0)),
        S::Some(v) => Node::Tagged(some(sval::tags::RUST_OPTION_SOME, "Some", 1), Box::new(to_sval(v))),
        S::Bool(v) => Node::Bool(*v),
        S::I8(v) => Node::I8(*v),
        S::I16(v) => Node::I16(*v),
        S::I32(v) => Node::I32(*v),
        S::I64(v) => Node::I64(*v),
        S::I128(v) => Node::I128(*v),
        S::U8(v) => Node::U8(*v),
        S::U16(v) => Node::U16(*v),
        S::U32(v) => Node::U32(*v),
        S::U64(v) => Node::U64(*v),
        S::U128(v) => Node::U128(*v),
        S::F32(v) => Node::F32(*v),
        S::F64(v) => Node::F64(*v),
        S::Char(c) => {
            let mut b = [0; 4];
            text(leak(c.encode_utf8(&mut b).as_bytes().to_vec()))
        }
        S::Str(t) => text(t),
        S::Shown(a, b) => {
            let mut v = a.as_bytes().to_vec();
            v.extend_from_slice(b.as_bytes());
            text(leak(v))
        }
        S::Bytes(b) => Node::Bin(Some(b.len()), vec![(true, b)]),
        S::UnitStruct(n) => Node::Tag(named(n)),
        S::UnitVariant(n, i, v) => Node::Enum(named(n), Some(Box::new(Node::Tag(variant(v, *i))))),
        S::Newtype(n, v) => Node::Tagged(named(n), Box::new(to_sval(v))),
        S::NewtypeVariant(n, i, l, v) => {
            Node::Enum(named(n), Some(Box::new(Node::Tagged(variant(l, *i), Box::new(to_sval(v))))))
        }
        S::Seq(n, vs) => Node::Seq(*n, vs.iter().map(to_sval).collect()),
        S::Tuple(n, vs) => Node::Tuple(Hdr::default(), Some(*n), tuple(vs)),
        S::TupleStruct(l, n, vs) => Node::Tuple(named(l), Some(*n), tuple(vs)),
        S::TupleVariant(l, i, v, n, vs) => {
            Node::Enum(named(l), Some(Box::new(Node::Tuple(variant(v, *i), Some(*n), tuple(vs)))))
        }
        S::Map(n, vs) => Node::Map(*n, vs.iter().map(|(k, v)| (to_sval(k), to_sval(v))).collect()),
        S::Struct(l, n, vs) => Node::Record(named(l), Some(*n), record(vs)),
        S::StructVariant(l, i, v, n, vs) => {
            Node::Enum(named(l), Some(Box::new(Node::Record(variant(v, *i), Some(*n), record(vs)))))
        }
        S::Broken => Node::Broken,
    }
}

fn fixed(l: &Option<Lab>) -> Option<Name> {
    match l {
        Some(l) if l.is_static => Some(l.s),
        _ => None,
    }
}

/// The serde value of a sval value, if it has one.
fn to_serde(n: &Node) -> Option<S> {
    let all = |vs: Vec<Option<S>>| vs.into_iter().collect::<Option<Vec<S>>>();
    Some(match n {
        Node::Null => S::None,
        Node::Bool(v) => S::Bool(*v),
        Node::U8(v) => S::U8(*v),
        Node::U16(v) => S::U16(*v),
        Node::U32(v) => S::U32(*v),
        Node::U64(v) => S::U64(*v),
        Node::U128(v) => S::U128(*v),
        Node::I8(v) => S::I8(*v),
        Node::I16(v) => S::I16(*v),
        Node::I32(v) => S::I32(*v),
        Node::I64(v) => S::I64(*v),
        Node::I128(v) => S::I128(*v),
        Node::F32(v) => S::F32(*v),
        Node::F64(v) => S::F64(*v),
        Node::Text(_, f) => S::Str(leak(f.iter().flat_map(|(_, f)| f.as_bytes().iter().copied()).collect())),
        Node::Bin(_, f) => {
            let b: Vec<u8> = f.iter().flat_map(|(_, f)| f.iter().copied()).collect();
            S::Bytes(Box::leak(b.into_boxed_slice()))
        }
        Node::Tag(h) if h.tag == Some(sval::tags::RUST_OPTION_NONE) => S::None,
        Node::Tag(h) if h.tag == Some(sval::tags::RUST_UNIT) => S::Unit,
        Node::Tag(h) => S::UnitStruct(fixed(&h.label)?),
        Node::Tagged(h, v) if h.tag == Some(sval::tags::RUST_OPTION_SOME) => S::Some(Box::new(to_serde(v)?)),
        Node::Tagged(h, v) => S::Newtype(fixed(&h.label)?, Box::new(to_serde(v)?)),
        Node::Seq(n, vs) => S::Seq(*n, all(vs.iter().map(to_serde).collect())?),
        Node::Map(n, vs) => {
            let mut o = Vec::new();
            for (k, v) in vs {
                o.push((to_serde(k)?, to_serde(v)?));
            }
            S::Map(*n, o)
        }
        Node::Tuple(h, n, vs) => {
            let vs = all(vs.iter().map(|(_, _, v)| to_serde(v)).collect())?;
            match &h.label {
                None => S::Tuple((*n)?, vs),
                l => S::TupleStruct(fixed(l)?, (*n)?, vs),
            }
        }
        Node::Record(h, n, vs) => match &h.label {
            None => S::Tuple((*n)?, all(vs.iter().map(|(_, _, v)| to_serde(v)).collect())?),
            l => {
                let mut o = Vec::new();
                for (_, k, v) in vs {
                    o.push((if k.is_static { k.s } else { return None }, to_serde(v)?));
                }
                S::Struct(fixed(l)?, (*n)?, o)
            }
        },
        Node::RecordTuple(h, n, vs) => {
            let r = vs.iter().map(|(t, l, _, v)| (t.clone(), l.clone(), v.clone())).collect();
            to_serde(&Node::Record(h.clone(), *n, r))?
        }
        Node::Enum(h, None) => S::UnitStruct(fixed(&h.label)?),
        Node::Enum(h, Some(v)) => {
            let name = fixed(&h.label)?;
            let mut v = &**v;
            while let Node::Hint(_, x) | Node::ByValue(x) | Node::ByComputed(x) = v {
                v = x;
            }
            let of = |h: &Hdr| Some((fixed(&h.label)?, h.index.as_ref()?.to_i64().and_then(|i| u32::try_from(i).ok())?));
            match v {
                Node::Tag(h) => {
                    let (l, i) = of(h)?;
                    S::UnitVariant(name, i, l)
                }
                Node::Tagged(h, v) => {
                    let (l, i) = of(h)?;
                    S::NewtypeVariant(name, i, l, Box::new(to_serde(v)?))
                }
                Node::Tuple(h, n, vs) => {
                    let (l, i) = of(h)?;
                    S::TupleVariant(name, i, l, (*n)?, all(vs.iter().map(|(_, _, v)| to_serde(v)).collect())?)
                }
                Node::Record(h, n, vs) => {
                    let (l, i) = of(h)?;
                    let mut o = Vec::new();
                    for (_, k, v) in vs {
                        o.push((if k.is_static { k.s } else { return None }, to_serde(v)?));
                    }
                    S::StructVariant(name, i, l, (*n)?, o)
                }
                Node::RecordTuple(h, n, vs) => {
                    let (l, i) = of(h)?;
                    let mut o = Vec::new();
                    for (_, k, _, v) in vs {
                        o.push((if k.is_static { k.s } else { return None }, to_serde(v)?));
                    }
                    S::StructVariant(name, i, l, (*n)?, o)
                }
                _ => return None,
            }
        }
        Node::Hint(_, v) | Node::ByValue(v) | Node::ByComputed(v) => to_serde(v)?,
        Node::Broken => return None,
    })
}

/// Values larger than what size thresholds are likely to be: long strings, bytes and names, many elements, deep nesting.
fn s_big(deepest: usize) -> S {
    let d = || S::I64(rt::digit() as i64);
    let long = |n: usize| -> &'static [u8] {
        let mut v = vec![b'x'; n];
        let b = rt::u8_();
        rt::assume(b < 0x80);
        v[[0, n / 2, n - 1][rt::choice(3)]] = b;
        Box::leak(v.into_boxed_slice())
    };
    let text = |n: usize| unsafe { std::str::from_utf8_unchecked(long(n)) };
    let letters = |n: usize| -> Name {
        let mut v = vec![b'x'; n];
        let b = rt::u8_();
        rt::assume(b.is_ascii_lowercase());
        v[n - 1] = b;
        unsafe { std::str::from_utf8_unchecked(Box::leak(v.into_boxed_slice())) }
    };
    match rt::choice(4) {
        0 => match rt::choice(3) {
            0 => S::Str(text([260, 1100][rt::choice(2)])),
            1 => S::Shown(text(260), text(260)),
            _ => S::Bytes(long([260, 1100][rt::choice(2)])),
        },
        1 => {
            let (n, v) = (letters(260), letters(260));
            match rt::choice(8) {
                0 => S::UnitStruct(n),
                1 => S::UnitVariant(n, 1, v),
                2 => S::Newtype(n, Box::new(d())),
                3 => S::NewtypeVariant(n, 1, v, Box::new(d())),
                4 => S::TupleStruct(n, 1, vec![d()]),
                5 => S::TupleVariant(n, 1, v, 1, vec![d()]),
                6 => S::Struct(n, 1, vec![(v, d())]),
                _ => S::StructVariant(n, 1, v, 1, vec![(letters(260), d())]),
            }
        }
        2 => {
            let n = [17, 130, 300][rt::choice(3)];
            let at = [0, n / 2, n - 1][rt::choice(3)];
            let x = d();
            let el = |i: usize| if i == at { x.clone() } else { S::Bool(true) };
            let els = || (0..n).map(el).collect::<Vec<_>>();
            let fields = || (0..n).map(|i| ("f", el(i))).collect::<Vec<_>>();
            match rt::choice(7) {
                0 => S::Seq(if rt::flag() { Some(n) } else { None }, els()),
                1 => S::Tuple(n, els()),
                2 => S::TupleStruct("n", n, els()),
                3 => S::TupleVariant("n", 1, "v", n, els()),
                4 => S::Map(if rt::flag() { Some(n) } else { None }, (0..n).map(|i| (S::Str("k"), el(i))).collect()),
                5 => S::Struct("n", n, fields()),
                _ => S::StructVariant("n", 1, "v", n, fields()),
            }
        }
        _ => {
            let depth = [9, deepest][rt::choice(2)];
            let kind = rt::choice(12);
            let mut v = d();
            for i in 0..depth {
                v = match if kind == 11 { i % 11 } else { kind } {
                    0 => S::Some(Box::new(v)),
                    1 => S::Newtype("n", Box::new(v)),
                    2 => S::NewtypeVariant("n", 1, "v", Box::new(v)),
                    3 => S::Seq(Some(2), vec![v, S::Unit]),
                    4 => S::Tuple(2, vec![v, S::Unit]),
                    5 => S::TupleStruct("n", 2, vec![v, S::Unit]),
                    6 => S::TupleVariant("n", 1, "v", 2, vec![v, S::Unit]),
                    7 => S::Map(Some(1), vec![(S::Str("k"), v)]),
                    8 => S::Struct("n", 2, vec![("a", v), ("b", S::Unit)]),
                    9 => S::StructVariant("n", 1, "v", 2, vec![("a", v), ("b", S::Unit)]),
                    _ => S::Seq(None, vec![S::Unit, v]),
                };
            }
            v
        }
    }
}

// ---- generator of serde values ----

struct SGen {
    nodes: usize,
    kids: usize,
    /// any scalars, not just digits and letters
    full: bool,
    sizes: bool,
}

impl SGen {
    fn name(&self) -> Name {
        rt::letters(1)
    }
    fn index(&self) -> u32 {
        if self.full {
            rt::u32_()
        } else {
            rt::digit() as u32
        }
    }
    fn text(&self) -> Name {
        if self.full {
            rt::ascii(2)
        } else {
            rt::letters(1)
        }
    }
    fn size(&self, n: usize) -> Option<usize> {
        if self.sizes && rt::flag() {
            None
        } else {
            Some(n)
        }
    }
    fn many(&mut self) -> Vec<S> {
        let n = rt::choice(self.nodes.min(self.kids) + 1);
        (0..n).map(|_| self.value()).collect()
    }
    fn fields(&mut self) -> Vec<(Name, S)> {
        let n = rt::choice(self.nodes.min(self.kids) + 1);
        (0..n).map(|_| (self.name(), self.value())).collect()
    }
    fn value(&mut self) -> S {
        if self.nodes == 0 {
            return S::Unit;
        }
        self.nodes -= 1;
        if self.full && rt::flag() {
            return self.scalar();
        }
        match rt::choice(15) {
            0 => S::Unit,
            1 => S::None,
            2 => S::I64(rt::digit() as i64),
            3 => S::Str(self.text()),
            4 => S::UnitStruct(self.name()),
            5 => S::UnitVariant(self.name(), self.index(), self.name()),
            6 => S::Some(Box::new(self.value())),
            7 => S::Newtype(self.name(), Box::new(self.value())),
            8 => S::NewtypeVariant(self.name(), self.index(), self.name(), Box::new(self.value())),
            9 => {
                let vs = self.many();
                S::Seq(self.size(vs.len()), vs)
            }
            10 => {
                let vs = self.many();
                match rt::flag() {
                    true => S::Tuple(vs.len(), vs),
                    false => S::TupleStruct(self.name(), vs.len(), vs),
                }
            }
            11 => {
                let vs = self.many();
                S::TupleVariant(self.name(), self.index(), self.name(), vs.len(), vs)
            }
            12 => {
                let n = rt::choice(self.nodes.min(self.kids) + 1);
                let vs: Vec<_> = (0..n).map(|_| (self.value(), self.value())).collect();
                S::Map(self.size(vs.len()), vs)
            }
            13 => {
                let vs = self.fields();
                S::Struct(self.name(), vs.len(), vs)
            }
            _ => {
                let vs = self.fields();
                S::StructVariant(self.name(), self.index(), self.name(), vs.len(), vs)
            }
        }
    }
    fn scalar(&mut self) -> S {
        match rt::choice(16) {
            0 => S::Bool(rt::bool_()),
            1 => S::I8(rt::i8_()),
            2 => S::I16(rt::i16_()),
            3 => S::I32(rt::i32_()),
            4 => S::I64(rt::i64_()),
            5 => S::I128(rt::i128_()),
            6 => S::U8(rt::u8_()),
            7 => S::U16(rt::u16_()),
            8 => S::U32(rt::u32_()),
            9 => S::U64(rt::u64_()),
            10 => S::U128(rt::u128_()),
            11 => S::F32(rt::f32_()),
            12 => S::F64(rt::f64_()),
            13 => {
                let c = rt::u32_();
                rt::assume(char::from_u32(c).is_some());
                S::Char(char::from_u32(c).unwrap())
            }
            14 => S::Bytes(rt::leak_bytes(rt::choice(3))),
            _ => S::Shown(rt::ascii(1), rt::ascii(rt::choice(2))),
        }
    }
}

/// serde -> sval
fn from_serde(s: &S) {
    let (want, _) = record(MERGED, &to_sval(s));
    let (got, ok) = match rt::choice(3) {
        0 => record(MERGED, &ToValue::new(s)),
        1 => record(MERGED, ToValue::new_borrowed(s)),
        _ => {
            let mut r = Rec::new(MERGED);
            let ok = sval_serde::stream(&mut r, s).is_ok();
            (r, ok)
        }
    };
    check!(ok, "a value serde can serialize failed to stream");
    rt::reach(1);
    same(&want, &got, "the stream is not what serde serialized");
}

/// sval -> serde
fn into_serde(n: &Node) {
    let (got, ok) = match rt::choice(3) {
        0 => calls(&ToSerialize::new(n)),
        1 => calls(ToSerialize::new_borrowed(n)),
        _ => {
            let r = SRec::new(u32::MAX);
            let ok = sval_serde::serialize(To(&r), n).is_ok();
            (r.into_inner().log, ok)
        }
    };
    match to_serde(n) {
        Some(s) => {
            let (want, _) = calls(&s);
            check!(ok, "a value that serde can express failed to serialize");
            check!(rt::eq(&got, &want), "serde saw a different value");
            rt::reach(1);
        }
        None => {
            check!(!ok, "a value that serde cannot express was serialized");
            rt::reach(2);
        }
    }
}

/// Static labels, indexes and exact sizes everywhere, as serde needs them.
fn complete(n: &mut Node, next: &mut usize) {
    fn hdr(h: &mut Hdr, next: &mut usize) {
        if let Some(l) = &mut h.label {
            l.is_static = true;
        } else {
            h.label = Some(Lab { s: "N", is_static: true, tag: None });
        }
        if h.index.is_none() {
            h.index = Some(sval::Index::new(*next));
            *next += 1;
        }
    }
    match n {
        Node::Tag(h) | Node::Enum(h, None) => hdr(h, next),
        Node::Tagged(h, v) | Node::Enum(h, Some(v)) => {
            hdr(h, next);
            complete(v, next)
        }
        Node::Seq(_, vs) => vs.iter_mut().for_each(|v| complete(v, next)),
        Node::Map(_, vs) => vs.iter_mut().for_each(|(k, v)| {
            complete(k, next);
            complete(v, next)
        }),
        Node::Record(h, s, vs) => {
            hdr(h, next);
            *s = Some(vs.len());
            vs.iter_mut().for_each(|(_, l, v)| {
                l.is_static = true;
                complete(v, next)
            })
        }
        Node::RecordTuple(h, s, vs) => {
            hdr(h, next);
            *s = Some(vs.len());
            vs.iter_mut().for_each(|(_, l, _, v)| {
                l.is_static = true;
                complete(v, next)
            })
        }
        Node::Tuple(h, s, vs) => {
            hdr(h, next);
            *s = Some(vs.len());
            vs.iter_mut().for_each(|(_, _, v)| complete(v, next))
        }
        Node::Hint(_, v) | Node::ByValue(v) | Node::ByComputed(v) => complete(v, next),
        _ => (),
    }
}

/// Chars become text, `collect_str` becomes text.
fn there(s: &S) -> S {
    match s {
        S::Char(_) | S::Shown(..) => match to_sval(s) {
            Node::Text(_, f) => S::Str(f[0].1),
            _ => unreachable!(),
        },
        S::Some(v) => S::Some(Box::new(there(v))),
        S::Newtype(n, v) => S::Newtype(n, Box::new(there(v))),
        S::NewtypeVariant(n, i, l, v) => S::NewtypeVariant(n, *i, l, Box::new(there(v))),
        S::Seq(n, v) => S::Seq(*n, v.iter().map(there).collect()),
        S::Tuple(n, v) => S::Tuple(*n, v.iter().map(there).collect()),
        S::TupleStruct(l, n, v) => S::TupleStruct(l, *n, v.iter().map(there).collect()),
        S::TupleVariant(l, i, x, n, v) => S::TupleVariant(l, *i, x, *n, v.iter().map(there).collect()),
        S::Map(n, v) => S::Map(*n, v.iter().map(|(k, v)| (there(k), there(v))).collect()),
        S::Struct(l, n, v) => S::Struct(l, *n, v.iter().map(|(k, v)| (*k, there(v))).collect()),
        S::StructVariant(l, i, x, n, v) => S::StructVariant(l, *i, x, *n, v.iter().map(|(k, v)| (*k, there(v))).collect()),
        s => s.clone(),
    }
}

/// serde -> sval -> serde
fn and_back(s: &S) {
    let (want, _) = calls(&there(s));
    let (got, ok) = calls(&ToSerialize::new(ToValue::new(s)));
    check!(ok, "a value failed to go through sval and back");
    check!(rt::eq(&got, &want), "serde saw a different value");
    rt::reach(1);
}

const ALL: &[K] = &[
    K::Null, K::Bool, K::Int, K::F64, K::F32, K::Frags, K::BinFrags, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Seq,
    K::Map, K::Record, K::Tuple, K::RecordTuple, K::Hint, K::ByValue, K::ByComputed,
];

/// Give some labels and tags a meaning for serde.
fn special(n: &mut Node) {
    let t = match rt::choice(3) {
        0 => sval::tags::RUST_UNIT,
        1 => sval::tags::RUST_OPTION_NONE,
        _ => sval::tags::RUST_OPTION_SOME,
    };
    match n {
        Node::Tag(h) | Node::Tagged(h, _) | Node::Enum(h, _) | Node::Record(h, _, _) | Node::Tuple(h, _, _) => h.tag = Some(t),
        _ => (),
    }
}

harnesses! {
    fn h_serde_from() {
        let s = SGen { nodes: 3, kids: 2, full: false, sizes: true }.value();
        from_serde(&s);
    }
    fn h_serde_from_full() {
        let s = SGen { nodes: 2, kids: 1, full: true, sizes: false }.value();
        from_serde(&s);
    }
    fn h_serde_from_big() {
        from_serde(&s_big(260));
    }
    fn h_serde_from4() {
        let s = SGen { nodes: 4, kids: 2, full: false, sizes: false }.value();
        from_serde(&s);
    }
    fn h_serde_into() {
        let n = Gen { nodes: 3, hdr: H::LabelIndex, static_labels: true, kinds: &[K::Null, K::I64, K::Text, K::Tag, K::Tagged, K::Enum,
            K::Seq, K::Map, K::Record, K::Tuple], ..Gen::default() }.value();
        into_serde(&n);
    }
    /// every method that streams a value, in every place a value can be
    fn h_serde_into_leaf() {
        let mut n = crate::shapes::leaf_within();
        complete(&mut n, &mut 0);
        into_serde(&n);
    }
    fn h_serde_into_deep_leaf() {
        let mut n = crate::shapes::deep_leaf(8);
        complete(&mut n, &mut 0);
        into_serde(&n);
    }
    fn h_serde_into_full() {
        let mut n = crate::shapes::full_within();
        complete(&mut n, &mut 0);
        into_serde(&n);
    }
    fn h_serde_into_full2() {
        let mut n = crate::shapes::full_twice();
        complete(&mut n, &mut 0);
        into_serde(&n);
    }
    fn h_serde_into_all() {
        let n = Gen { nodes: 2, hdr: H::LabelIndex, static_labels: true, kinds: ALL, plain: false, sizes: true, max_children: 1,
            ..Gen::default() }.value();
        into_serde(&n);
    }
    /// enums, with any index
    fn h_serde_into_enum() {
        let mut n = Gen { nodes: 2, hdr: H::LabelIndex, static_labels: true, plain: false, sizes: true,
            kinds: &[K::Null, K::Tag, K::Tagged, K::Enum, K::EmptyEnum, K::Record, K::Tuple, K::RecordTuple, K::ByValue], max_children: 1,
            ..Gen::default() }.of(K::Enum);
        if rt::flag() {
            n = Node::Seq(Some(1), vec![n]);
        }
        into_serde(&n);
    }
    /// options and units, computed labels
    fn h_serde_into_special() {
        let mut n = Gen { nodes: 2, hdr: H::LabelIndex, static_labels: rt::flag(), kinds: &[K::Null, K::I64, K::Tag, K::Tagged, K::Enum,
            K::Record, K::Tuple], max_children: 1, ..Gen::default() }.value();
        if rt::flag() {
            special(&mut n);
        }
        into_serde(&n);
    }
    /// what needs buffering, several levels deep
    fn h_serde_into_deep() {
        let n = Gen { nodes: 5, hdr: H::None, static_labels: true, kinds: &[K::I64, K::Seq, K::Map, K::Tuple], keys: &[K::Text],
            max_children: 2, ..Gen::default() }.value();
        into_serde(&n);
    }
    fn h_serde_into_wide() {
        let mut n = crate::shapes::wide([20, 70][rt::choice(2)], [0, 1, 3][rt::choice(3)]);
        let l = match &n { Node::Seq(_, v) => v.len(), Node::Map(_, v) => v.len(), Node::Tuple(_, _, v) => v.len(), _ => 0 };
        if let Node::Seq(s, _) | Node::Map(s, _) | Node::Tuple(_, s, _) = &mut n {
            *s = Some(l);
        }
        let n = match rt::choice(3) {
            0 => n,
            1 => Node::Seq(None, vec![n]),
            _ => Node::Tagged(named("n"), Box::new(n)),
        };
        into_serde(&n);
    }
    fn h_serde_into_long() {
        let t = crate::shapes::one_byte_text([40, 130][rt::choice(2)]);
        let n = Node::Text(None, vec![(rt::flag(), t), (rt::flag(), rt::letters(1))]);
        let n = match rt::choice(3) {
            0 => n,
            1 => Node::Seq(None, vec![n]),
            _ => Node::Seq(None, vec![Node::Tagged(named("n"), Box::new(n))]),
        };
        into_serde(&n);
    }
    fn h_serde_into_big() {
        let k = rt::choice(crate::shapes::BIG);
        let n = crate::shapes::big_upto(k, 1100, 300, 70, true, false);
        into_serde(&n);
    }
    fn h_serde_back_big() {
        and_back(&s_big(70));
    }
    fn h_serde_back() {
        let s = SGen { nodes: 3, kids: 2, full: false, sizes: true }.value();
        and_back(&s);
    }
    fn h_serde_back_full() {
        let s = SGen { nodes: 2, kids: 1, full: true, sizes: false }.value();
        and_back(&s);
    }
    fn h_serde_back4() {
        let s = SGen { nodes: 4, kids: 2, full: false, sizes: false }.value();
        and_back(&s);
    }
    /// failing serializers
    fn h_serde_into_fault() {
        let n = to_sval(&SGen { nodes: 2, kids: 2, full: false, sizes: false }.value());
        let n = if rt::flag() { Node::Seq(Some(1), vec![n]) } else { n };
        let r = SRec::new(rt::choice(10) as u32);
        let ok = ToSerialize::new(&n).serialize(To(&r)).is_ok();
        let r = r.into_inner();
        check!(r.after_fail == 0, "a failed serializer was called again");
        check!(ok != r.failed, "the result doesn't tell whether the serializer failed");
        if ok {
            let (want, _) = calls(&to_serde(&n).unwrap());
            check!(rt::eq(&r.log, &want), "serde saw a different value");
            rt::reach(1);
        } else {
            rt::reach(2);
        }
    }
    fn h_serde_into_fault_full() {
        let n = crate::shapes::faulty();
        let r = SRec::new(u32::MAX);
        rt::assume(ToSerialize::new(&n).serialize(To(&r)).is_ok());
        let r = SRec::new(rt::choice(24) as u32);
        let ok = ToSerialize::new(&n).serialize(To(&r)).is_ok();
        let r = r.into_inner();
        rt::assume(r.failed);
        check!(r.after_fail == 0, "a failed serializer was called again");
        check!(!ok, "a serializer's error was lost");
        rt::reach(1);
    }
    fn h_serde_into_fault_big() {
        let n = crate::shapes::faulty_big(70);
        let r = SRec::new(u32::MAX);
        rt::assume(ToSerialize::new(&n).serialize(To(&r)).is_ok());
        let all = r.into_inner().calls as usize;
        let r = SRec::new(crate::shapes::fails_far(all) as u32);
        let ok = ToSerialize::new(&n).serialize(To(&r)).is_ok();
        let r = r.into_inner();
        check!(r.failed && r.after_fail == 0, "a failed serializer was called again");
        check!(!ok, "a serializer's error was lost");
        rt::reach(1);
    }
    fn h_serde_into_broken() {
        let n = crate::shapes::breaking();
        let r = SRec::new(u32::MAX);
        check!(ToSerialize::new(&n).serialize(To(&r)).is_err(), "a failing value was serialized");
        rt::reach(1);
    }
    fn h_serde_from_fault_full() {
        let s = SGen { nodes: 2, kids: 1, full: true, sizes: false }.value();
        let mut r = Rec::failing_at(MERGED, rt::choice(16) as u32);
        let ok = sval::Value::stream(&ToValue::new(&s), &mut r).is_ok();
        rt::assume(r.failed);
        check!(r.after_fail == 0, "a failed stream was called again");
        check!(!ok, "a stream's error was lost");
        rt::reach(1);
    }
    /// failing values
    fn h_serde_broken() {
        let v = SGen { nodes: 1, kids: 1, full: false, sizes: false }.value();
        let name = rt::letters(1);
        let s = match rt::choice(12) {
            0 => S::Broken,
            1 => S::Some(Box::new(S::Broken)),
            2 => S::Newtype(name, Box::new(S::Broken)),
            3 => S::NewtypeVariant(name, 1, name, Box::new(S::Broken)),
            4 => S::Seq(None, vec![v, S::Broken]),
            5 => S::Tuple(2, vec![v, S::Broken]),
            6 => S::TupleStruct(name, 2, vec![v, S::Broken]),
            7 => S::TupleVariant(name, 1, name, 2, vec![v, S::Broken]),
            8 => S::Map(None, vec![(v, S::Broken)]),
            9 => S::Map(None, vec![(S::Broken, v)]),
            10 => S::Struct(name, 2, vec![(name, v), (name, S::Broken)]),
            _ => S::StructVariant(name, 1, name, 2, vec![(name, v), (name, S::Broken)]),
        };
        let (_, ok) = record(MERGED, &ToValue::new(&s));
        check!(!ok, "a value that fails was streamed");
        let (_, ok) = calls(&ToSerialize::new(to_sval(&s)));
        check!(!ok, "a value that fails was serialized");
        rt::reach(1);
    }
    /// failing streams
    fn h_serde_from_fault() {
        let s = SGen { nodes: 2, kids: 2, full: false, sizes: false }.value();
        let mut r = Rec::failing_at(MERGED, rt::choice(12) as u32);
        let ok = sval::Value::stream(&ToValue::new(&s), &mut r).is_ok();
        check!(r.after_fail == 0, "a failed stream was called again");
        check!(ok != r.failed, "the result doesn't tell whether the stream failed");
        if ok {
            let (want, _) = record(MERGED, &to_sval(&s));
            same(&want, &r, "the stream is not what serde serialized");
            rt::reach(1);
        } else {
            rt::reach(2);
        }
    }
}

/// The JSON of serde values.
#[cfg(feature = "jserde")]
pub mod json {
    use super::*;

    /// No unit structs, which are documented to differ (their name, instead of null).
    fn shared(s: &S) -> bool {
        match s {
            S::UnitStruct(_) => false,
            S::Some(v) | S::Newtype(_, v) | S::NewtypeVariant(_, _, _, v) => shared(v),
            S::Seq(_, v) | S::Tuple(_, v) | S::TupleStruct(_, _, v) | S::TupleVariant(_, _, _, _, v) => v.iter().all(shared),
            S::Map(_, v) => v.iter().all(|(k, v)| shared(k) && shared(v)),
            S::Struct(_, _, v) | S::StructVariant(_, _, _, _, v) => v.iter().all(|(_, v)| shared(v)),
            _ => true,
        }
    }

    fn agree(s: &S) {
        rt::assume(shared(s));
        let want = serde_json::to_string(s);
        let got = sval_json::stream_to_string(ToValue::new(s));
        match want {
            Ok(want) => {
                check!(got.is_ok(), "serde_json writes a value that sval_json refuses");
                let got = got.unwrap();
                rt::obs(got.as_bytes());
                check!(rt::eq(got.as_bytes(), want.as_bytes()), "the JSON is not what serde_json writes");
                rt::reach(1);
            }
            Err(_) => rt::reach(2),
        }
    }

    fn int() -> S {
        let d = rt::digit();
        let edge = rt::choice(3);
        macro_rules! of {
            ($k:ident, $t:ty) => {
                S::$k(match edge {
                    0 => d as $t,
                    1 => <$t>::MAX - d as $t,
                    _ => <$t>::MIN + d as $t,
                })
            };
        }
        match rt::choice(10) {
            0 => of!(I8, i8),
            1 => of!(I16, i16),
            2 => of!(I32, i32),
            3 => of!(I64, i64),
            4 => of!(I128, i128),
            5 => of!(U8, u8),
            6 => of!(U16, u16),
            7 => of!(U32, u32),
            8 => of!(U64, u64),
            _ => of!(U128, u128),
        }
    }

    fn scalar() -> S {
        match rt::choice(7) {
            0 => S::Bool(rt::bool_()),
            1 => int(),
            2 => S::F32([f32::NAN, f32::INFINITY, f32::NEG_INFINITY][rt::choice(3)]),
            3 => S::F64([f64::NAN, f64::INFINITY, f64::NEG_INFINITY][rt::choice(3)]),
            4 => S::Bytes(rt::leak_bytes(rt::choice(3))),
            5 => S::Char(rt::ascii(1).chars().next().unwrap()),
            _ => match rt::flag() {
                true => S::Str(rt::ascii(2)),
                false => S::Shown(rt::ascii(1), rt::letters(1)),
            },
        }
    }

    harnesses! {
        fn h_jserde_big() {
            agree(&s_big(130));
        }
        fn h_jserde_tree() {
            agree(&SGen { nodes: 3, kids: 2, full: false, sizes: true }.value());
        }
        fn h_jserde_tree4() {
            agree(&SGen { nodes: 4, kids: 2, full: false, sizes: false }.value());
        }
        /// every kind of scalar, in every kind of place
        fn h_jserde_scalar() {
            let v = scalar();
            let n = rt::letters(1);
            let s = match rt::choice(9) {
                0 => v,
                1 => S::Some(Box::new(v)),
                2 => S::Newtype(n, Box::new(v)),
                3 => S::NewtypeVariant(n, 1, n, Box::new(v)),
                4 => S::Seq(None, vec![v, S::Unit]),
                5 => S::Map(None, vec![(v, S::Unit), (S::Str(n), S::Unit)]),
                6 => S::Map(Some(1), vec![(S::Newtype(n, Box::new(v)), S::Unit)]),
                7 => S::StructVariant(n, 0, n, 1, vec![(n, v)]),
                _ => S::TupleVariant(n, 0, n, 2, vec![S::None, v]),
            };
            agree(&s);
        }
        /// names that need escaping
        fn h_jserde_names() {
            let n = rt::ascii(1);
            let v = S::Bool(true);
            agree(&match rt::choice(7) {
                0 => S::UnitVariant("E", 1, n),
                1 => S::NewtypeVariant(n, 1, n, Box::new(v)),
                2 => S::TupleVariant(n, 1, n, 2, vec![v.clone(), v]),
                3 => S::Struct(n, 2, vec![(n, v.clone()), (n, v)]),
                4 => S::StructVariant(n, 1, n, 1, vec![(n, v)]),
                5 => S::Map(None, vec![(S::UnitVariant("E", 1, n), v)]),
                _ => S::Seq(None, vec![S::UnitVariant("E", 1, n), S::Newtype(n, Box::new(v))]),
            });
        }
        /// chains of variants and containers
        fn h_jserde_chain() {
            let mut s = match rt::choice(4) {
                0 => S::UnitVariant("E", 0, "U"),
                1 => S::Seq(Some(0), vec![]),
                2 => S::StructVariant("E", 1, "V", 0, vec![]),
                _ => S::I64(rt::digit() as i64),
            };
            for _ in 0..4 {
                s = match rt::choice(7) {
                    0 => S::NewtypeVariant("E", 0, "N", Box::new(s)),
                    1 => S::TupleVariant("E", 1, "T", 2, vec![s, S::Unit]),
                    2 => S::StructVariant("E", 2, "S", 2, vec![("a", S::Unit), ("b", s)]),
                    3 => S::Newtype("N", Box::new(s)),
                    4 => S::Some(Box::new(s)),
                    5 => S::Seq(None, vec![S::Unit, s, S::UnitVariant("E", 0, "U")]),
                    _ => S::Map(None, vec![(S::Str("k"), s), (S::UnitVariant("E", 0, "U"), S::None)]),
                };
            }
            agree(&s);
        }
    }
}
