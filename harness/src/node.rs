//! Symbolic values. A `Node` is a tree whose shape is chosen by case split and whose payloads are
//! symbolic terms. It implements `sval::Value` by calling the stream methods one to one, so it can
//! produce every well-formed stream of the bounded shapes.

use crate::rec::{T1, T2};
use crate::rt;
use sval::{Index, Label, Result, Stream, Tag, Value};

#[derive(Clone)]
pub struct Lab {
    pub s: &'static str,
    pub is_static: bool,
    pub tag: Option<Tag>,
}

impl Lab {
    pub fn get(&self) -> Label<'_> {
        let l = if self.is_static {
            Label::new(self.s)
        } else {
            Label::new_computed(self.s)
        };
        match &self.tag {
            Some(t) => l.with_tag(t),
            None => l,
        }
    }
}

#[derive(Clone, Default)]
pub struct Hdr {
    pub tag: Option<Tag>,
    pub label: Option<Lab>,
    pub index: Option<Index>,
}

#[derive(Clone)]
pub enum Node {
    Null,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(f32),
    F64(f64),
    /// size hint, fragments (computed?, text)
    Text(Option<usize>, Vec<(bool, &'static str)>),
    Bin(Option<usize>, Vec<(bool, &'static [u8])>),
    Tag(Hdr),
    Tagged(Hdr, Box<Node>),
    Enum(Hdr, Option<Box<Node>>),
    Seq(Option<usize>, Vec<Node>),
    Map(Option<usize>, Vec<(Node, Node)>),
    Record(Hdr, Option<usize>, Vec<(Option<Tag>, Lab, Node)>),
    Tuple(Hdr, Option<usize>, Vec<(Option<Tag>, Index, Node)>),
    RecordTuple(Hdr, Option<usize>, Vec<(Option<Tag>, Lab, Index, Node)>),
    Hint(Tag, Box<Node>),
    /// Streaming it is an error.
    Broken,
    /// Streamed through `Stream::value`
    ByValue(Box<Node>),
    /// Streamed through `Stream::value_computed`
    ByComputed(Box<Node>),
}

impl Hdr {
    pub fn with<R>(
        &self,
        f: impl FnOnce(Option<&Tag>, Option<&Label>, Option<&Index>) -> R,
    ) -> R {
        let label = self.label.as_ref().map(|l| l.get());
        f(self.tag.as_ref(), label.as_ref(), self.index.as_ref())
    }
}

impl Value for Node {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> Result {
        match self {
            Node::Null => s.null(),
            Node::Bool(v) => s.bool(*v),
            Node::U8(v) => s.u8(*v),
            Node::U16(v) => s.u16(*v),
            Node::U32(v) => s.u32(*v),
            Node::U64(v) => s.u64(*v),
            Node::U128(v) => s.u128(*v),
            Node::I8(v) => s.i8(*v),
            Node::I16(v) => s.i16(*v),
            Node::I32(v) => s.i32(*v),
            Node::I64(v) => s.i64(*v),
            Node::I128(v) => s.i128(*v),
            Node::F32(v) => s.f32(*v),
            Node::F64(v) => s.f64(*v),
            Node::Text(n, frags) => {
                s.text_begin(*n)?;
                for (computed, f) in frags {
                    if *computed {
                        s.text_fragment_computed(f)?;
                    } else {
                        s.text_fragment(f)?;
                    }
                }
                s.text_end()
            }
            Node::Bin(n, frags) => {
                s.binary_begin(*n)?;
                for (computed, f) in frags {
                    if *computed {
                        s.binary_fragment_computed(f)?;
                    } else {
                        s.binary_fragment(f)?;
                    }
                }
                s.binary_end()
            }
            Node::Tag(h) => h.with(|t, l, i| s.tag(t, l, i)),
            Node::Tagged(h, v) => {
                h.with(|t, l, i| s.tagged_begin(t, l, i))?;
                v.stream(s)?;
                h.with(|t, l, i| s.tagged_end(t, l, i))
            }
            Node::Enum(h, v) => {
                h.with(|t, l, i| s.enum_begin(t, l, i))?;
                if let Some(v) = v {
                    v.stream(s)?;
                }
                h.with(|t, l, i| s.enum_end(t, l, i))
            }
            Node::Seq(n, vs) => {
                s.seq_begin(*n)?;
                for v in vs {
                    s.seq_value_begin()?;
                    v.stream(s)?;
                    s.seq_value_end()?;
                }
                s.seq_end()
            }
            Node::Map(n, vs) => {
                s.map_begin(*n)?;
                for (k, v) in vs {
                    s.map_key_begin()?;
                    k.stream(s)?;
                    s.map_key_end()?;
                    s.map_value_begin()?;
                    v.stream(s)?;
                    s.map_value_end()?;
                }
                s.map_end()
            }
            Node::Record(h, n, vs) => {
                h.with(|t, l, i| s.record_begin(t, l, i, *n))?;
                for (t, l, v) in vs {
                    s.record_value_begin(t.as_ref(), &l.get())?;
                    v.stream(s)?;
                    s.record_value_end(t.as_ref(), &l.get())?;
                }
                h.with(|t, l, i| s.record_end(t, l, i))
            }
            Node::Tuple(h, n, vs) => {
                h.with(|t, l, i| s.tuple_begin(t, l, i, *n))?;
                for (t, i, v) in vs {
                    s.tuple_value_begin(t.as_ref(), i)?;
                    v.stream(s)?;
                    s.tuple_value_end(t.as_ref(), i)?;
                }
                h.with(|t, l, i| s.tuple_end(t, l, i))
            }
            Node::RecordTuple(h, n, vs) => {
                h.with(|t, l, i| s.record_tuple_begin(t, l, i, *n))?;
                for (t, l, i, v) in vs {
                    s.record_tuple_value_begin(t.as_ref(), &l.get(), i)?;
                    v.stream(s)?;
                    s.record_tuple_value_end(t.as_ref(), &l.get(), i)?;
                }
                h.with(|t, l, i| s.record_tuple_end(t, l, i))
            }
            Node::Hint(t, v) => {
                s.tag_hint(t)?;
                v.stream(s)
            }
            Node::Broken => Err(sval::Error::new()),
            Node::ByValue(v) => s.value(&**v),
            Node::ByComputed(v) => s.value_computed(&**v),
        }
    }
}

/// The kinds a generator may pick.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum K {
    Null,
    Bool,
    I64,
    U64,
    I128,
    U128,
    /// Any integer type
    Int,
    F64,
    F32,
    /// One borrowed fragment of ASCII of length `text_len`
    Text,
    /// Up to two fragments, either lifetime, with or without hint
    Frags,
    Bin,
    BinFrags,
    Tag,
    Tagged,
    Enum,
    EmptyEnum,
    Seq,
    Map,
    Record,
    Tuple,
    RecordTuple,
    Hint,
    ByValue,
    ByComputed,
}

/// How much freedom headers have.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum H {
    /// No tag, no label, no index
    None,
    /// label or not (a symbolic ASCII letter); no tag, no index
    Label,
    /// label/index presence by case split
    LabelIndex,
    /// All eight combinations of tag, label, index
    All,
}

pub struct Gen {
    pub nodes: usize,
    pub kinds: &'static [K],
    /// Kinds of map keys. Empty: same as `kinds`.
    pub keys: &'static [K],
    pub hdr: H,
    pub text_len: usize,
    pub label_len: usize,
    pub max_children: usize,
    /// Whether size hints are chosen (none / exact / arbitrary) or always exact.
    pub sizes: bool,
    pub static_labels: bool,
    pub label_tags: bool,
    pub value_tags: bool,
    /// Payloads are lower-case letters and single digits (symbolic, but nothing forks on them);
    /// otherwise any ASCII text and any integer.
    pub plain: bool,
    /// Binary is made of bytes below 10.
    pub small_bytes: bool,
}

pub const STRUCT: &[K] = &[
    K::Null,
    K::I64,
    K::Text,
    K::Tag,
    K::Tagged,
    K::Enum,
    K::Seq,
    K::Map,
    K::Record,
    K::Tuple,
];

impl Default for Gen {
    fn default() -> Self {
        Gen {
            nodes: 4,
            kinds: STRUCT,
            keys: &[],
            hdr: H::LabelIndex,
            text_len: 1,
            label_len: 1,
            max_children: 2,
            sizes: false,
            static_labels: false,
            label_tags: false,
            value_tags: false,
            plain: true,
            small_bytes: false,
        }
    }
}

fn is_variant(k: K) -> bool {
    matches!(
        k,
        K::Tag | K::Tagged | K::Enum | K::EmptyEnum | K::Record | K::Tuple | K::RecordTuple
    )
}

/// Kinds that need at least one more node.
fn needs_child(k: K) -> bool {
    matches!(
        k,
        K::Tagged | K::Enum | K::Hint | K::ByValue | K::ByComputed
    )
}

impl Gen {
    pub fn value(&mut self) -> Node {
        let kinds = self.kinds;
        self.pick(kinds, |_| true)
    }

    fn key(&mut self) -> Node {
        if self.keys.is_empty() {
            self.value()
        } else {
            let keys = self.keys;
            self.pick(keys, |_| true)
        }
    }

    fn pick(&mut self, kinds: &'static [K], ok: impl Fn(K) -> bool) -> Node {
        let left = self.nodes;
        let can = |k: K| {
            ok(k)
                && (!needs_child(k) || left >= 2)
                && (k != K::Enum || left >= 2)
        };
        let n = kinds.iter().filter(|k| can(**k)).count();
        if n == 0 || left == 0 {
            return Node::Null;
        }
        let c = rt::choice(n);
        let k = *kinds.iter().filter(|k| can(**k)).nth(c).unwrap();
        self.nodes -= 1;
        self.of(k)
    }

    fn chars(&self, n: usize) -> &'static str {
        if self.plain {
            rt::letters(n)
        } else {
            rt::ascii(n)
        }
    }

    pub fn lab(&mut self) -> Lab {
        let s = self.chars(self.label_len);
        let tag = if self.label_tags {
            match rt::choice(2) {
                0 => None,
                _ => Some(T2),
            }
        } else {
            None
        };
        Lab {
            s,
            is_static: self.static_labels,
            tag,
        }
    }

    pub fn index(&mut self) -> Index {
        if self.plain {
            Index::new(rt::digit() as usize)
        } else {
            Index::new_i64(rt::i64_())
        }
    }

    pub fn hdr(&mut self) -> Hdr {
        let (t, l, i) = match self.hdr {
            H::None => (false, false, false),
            H::Label => (false, rt::flag(), false),
            H::LabelIndex => match rt::choice(3) {
                0 => (false, false, false),
                1 => (false, true, true),
                _ => (false, false, true),
            },
            H::All => {
                let c = rt::choice(8);
                (c & 1 != 0, c & 2 != 0, c & 4 != 0)
            }
        };
        Hdr {
            tag: if t { Some(T1) } else { None },
            label: if l { Some(self.lab()) } else { None },
            index: if i { Some(self.index()) } else { None },
        }
    }

    fn children(&mut self) -> usize {
        let max = if self.nodes < self.max_children {
            self.nodes
        } else {
            self.max_children
        };
        rt::choice(max + 1)
    }

    fn size(&mut self, n: usize) -> Option<usize> {
        if !self.sizes {
            return Some(n);
        }
        match rt::choice(2) {
            0 => None,
            _ => Some(n),
        }
    }

    fn value_tag(&mut self) -> Option<Tag> {
        if self.value_tags && rt::flag() {
            Some(T2)
        } else {
            None
        }
    }

    pub fn text(&mut self) -> Node {
        let t = self.chars(self.text_len);
        Node::Text(Some(t.len()), vec![(false, t)])
    }

    pub fn of(&mut self, k: K) -> Node {
        match k {
            K::Null => Node::Null,
            K::Bool => Node::Bool(rt::bool_()),
            K::I64 => Node::I64(if self.plain { rt::digit() as i64 } else { rt::i64_() }),
            K::U64 => Node::U64(rt::u64_()),
            K::I128 => Node::I128(rt::i128_()),
            K::U128 => Node::U128(rt::u128_()),
            K::Int => match rt::choice(10) {
                0 => Node::U8(rt::u8_()),
                1 => Node::U16(rt::u16_()),
                2 => Node::U32(rt::u32_()),
                3 => Node::U64(rt::u64_()),
                4 => Node::U128(rt::u128_()),
                5 => Node::I8(rt::i8_()),
                6 => Node::I16(rt::i16_()),
                7 => Node::I32(rt::i32_()),
                8 => Node::I64(rt::i64_()),
                _ => Node::I128(rt::i128_()),
            },
            K::F64 => Node::F64(rt::f64_()),
            K::F32 => Node::F32(rt::f32_()),
            K::Text => self.text(),
            K::Frags => {
                let n = rt::choice(3);
                let mut frags = Vec::new();
                let mut total = 0;
                for _ in 0..n {
                    let t = self.chars(self.text_len);
                    total += t.len();
                    frags.push((rt::flag(), t));
                }
                Node::Text(if rt::flag() { Some(total) } else { None }, frags)
            }
            K::Bin => {
                let b = rt::leak_bytes(self.text_len);
                Node::Bin(Some(b.len()), vec![(false, b)])
            }
            K::BinFrags => {
                let n = rt::choice(3);
                let mut frags = Vec::new();
                let mut total = 0;
                for _ in 0..n {
                    let t = rt::leak_bytes(self.text_len);
                    if self.small_bytes {
                        for b in t {
                            rt::assume(*b < 10);
                        }
                    }
                    total += t.len();
                    frags.push((rt::flag(), t));
                }
                Node::Bin(if rt::flag() { Some(total) } else { None }, frags)
            }
            K::Tag => Node::Tag(self.hdr()),
            K::Tagged => {
                let h = self.hdr();
                Node::Tagged(h, Box::new(self.value()))
            }
            K::Enum => {
                let h = self.hdr();
                let kinds = self.kinds;
                let v = self.pick(kinds, is_variant);
                match v {
                    Node::Null => Node::Enum(h, None),
                    v => Node::Enum(h, Some(Box::new(v))),
                }
            }
            K::EmptyEnum => Node::Enum(self.hdr(), None),
            K::Seq => {
                let n = self.children();
                let size = self.size(n);
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(self.value());
                }
                Node::Seq(size, v)
            }
            K::Map => {
                let n = self.children();
                let size = self.size(n);
                let mut v = Vec::new();
                for _ in 0..n {
                    let k = self.key();
                    v.push((k, self.value()));
                }
                Node::Map(size, v)
            }
            K::Record => {
                let h = self.hdr();
                let n = self.children();
                let size = self.size(n);
                let mut v = Vec::new();
                for _ in 0..n {
                    let t = self.value_tag();
                    let l = self.lab();
                    v.push((t, l, self.value()));
                }
                Node::Record(h, size, v)
            }
            K::Tuple => {
                let h = self.hdr();
                let n = self.children();
                let size = self.size(n);
                let mut v = Vec::new();
                for _ in 0..n {
                    let t = self.value_tag();
                    let i = self.index();
                    v.push((t, i, self.value()));
                }
                Node::Tuple(h, size, v)
            }
            K::RecordTuple => {
                let h = self.hdr();
                let n = self.children();
                let size = self.size(n);
                let mut v = Vec::new();
                for _ in 0..n {
                    let t = self.value_tag();
                    let l = self.lab();
                    let i = self.index();
                    v.push((t, l, i, self.value()));
                }
                Node::RecordTuple(h, size, v)
            }
            K::Hint => {
                let t = if rt::flag() { T1 } else { T2 };
                Node::Hint(t, Box::new(self.value()))
            }
            K::ByValue => Node::ByValue(Box::new(self.value())),
            K::ByComputed => Node::ByComputed(Box::new(self.value())),
        }
    }
}
