//! `Rec`: a stream that records every token it is given as bytes, and checks that the tokens form
//! a well-formed stream (balanced, one value per slot, ends repeat their begins' headers).

use crate::rt;
use sval::{Index, Label, Result, Stream, Tag};

pub const T1: Tag = Tag::new("svh-custom-tag-1");
pub const T2: Tag = Tag::new("svh-custom-tag-2");

/// 0 = none, 255 = some tag not in the table.
pub fn tag_code(tag: Option<&Tag>) -> u8 {
    let Some(tag) = tag else { return 0 };
    let known: [&Tag; 11] = [
        &T1,
        &T2,
        &sval::tags::RUST_OPTION_SOME,
        &sval::tags::RUST_OPTION_NONE,
        &sval::tags::RUST_UNIT,
        &sval::tags::NUMBER,
        &sval::tags::CONSTANT_SIZE,
        &sval::tags::VALUE_IDENT,
        &sval::tags::VALUE_OFFSET,
        &JSON_TEXT,
        &JSON_VALUE,
    ];
    for (i, k) in known.iter().enumerate() {
        if **k == *tag {
            return i as u8 + 1;
        }
    }
    255
}

pub const JSON_TEXT: Tag = Tag::new("JSON_TEXT");
pub const JSON_VALUE: Tag = Tag::new("JSON_VALUE");

#[derive(Clone, Copy, PartialEq, Eq)]
enum F {
    Root,
    Text,
    Bin,
    Seq,
    SeqV,
    Map,
    MapK,
    /// a key was completed: only a value may follow
    MapKd,
    MapV,
    Rec,
    RecV,
    Tup,
    TupV,
    RT,
    RTV,
    Tagged,
    Enum,
}

/// What is recorded.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Cfg {
    /// Record text and binary as one run of bytes, regardless of how they are split, whether the
    /// fragments are borrowed, and of the size hints.
    pub merge: bool,
    /// Record the size hints of text and binary even if their fragments are merged.
    pub run_sizes: bool,
    /// Don't record the number-of-entries hints.
    pub no_sizes: bool,
    /// Don't record standalone tag hints.
    pub no_tag_hints: bool,
    /// Don't record tags on labels.
    pub no_label_tags: bool,
    /// Record a record tuple as the record it lowers to.
    pub rt_as_record: bool,
}

pub const EXACT: Cfg = Cfg {
    merge: false,
    run_sizes: false,
    no_sizes: false,
    no_tag_hints: false,
    no_label_tags: false,
    rt_as_record: false,
};
pub const MERGED: Cfg = Cfg {
    merge: true,
    ..EXACT
};
/// What is left of a stream when the fragments of text and binary may be borrowed or not.
pub const COMPUTED: Cfg = Cfg {
    run_sizes: true,
    ..MERGED
};
pub const LOOSE: Cfg = Cfg {
    merge: true,
    run_sizes: false,
    no_sizes: true,
    no_tag_hints: true,
    no_label_tags: false,
    rt_as_record: false,
};

pub struct Rec {
    pub log: Vec<u8>,
    pub cfg: Cfg,
    /// Tokens that didn't fit the grammar of streams.
    pub malformed: u32,
    pub tokens: u32,
    /// Fail (return `Err`) at this token.
    pub fail_at: u32,
    /// How many calls were made after an error was returned.
    pub after_fail: u32,
    pub failed: bool,
    /// How many size hints were wrong.
    pub lied: u32,
    hint: Option<usize>,
    seen: usize,
    frames: Vec<(F, u32, Option<usize>)>,
    run: Vec<u8>,
    run_count: usize,
}

impl Rec {
    pub fn new(cfg: Cfg) -> Rec {
        Rec {
            log: Vec::with_capacity(256),
            cfg,
            malformed: 0,
            tokens: 0,
            fail_at: u32::MAX,
            after_fail: 0,
            failed: false,
            lied: 0,
            hint: None,
            seen: 0,
            frames: vec![(F::Root, 0, None)],
            run: Vec::new(),
            run_count: 0,
        }
    }

    pub fn failing_at(cfg: Cfg, at: u32) -> Rec {
        let mut r = Rec::new(cfg);
        r.fail_at = at;
        r
    }

    /// Exactly one complete, well-formed value was streamed.
    pub fn complete(&self) -> bool {
        self.malformed == 0 && self.frames.len() == 1 && self.frames[0].1 == 1
    }

    fn tok(&mut self, op: u8) -> Result {
        if self.failed {
            self.after_fail += 1;
        }
        if self.tokens == self.fail_at {
            self.failed = true;
            return Err(sval::Error::new());
        }
        self.tokens += 1;
        self.log.push(op);
        Ok(())
    }

    /// A value starts here.
    fn value_start(&mut self, variant: bool) {
        let last = self.frames.len() - 1;
        let (f, n, _) = &mut self.frames[last];
        let ok = match f {
            F::Root | F::SeqV | F::MapK | F::MapV | F::RecV | F::TupV | F::RTV | F::Tagged => {
                *n == 0
            }
            F::Enum => *n == 0 && variant,
            _ => false,
        };
        *n += 1;
        if !ok {
            self.malformed += 1;
        }
    }

    fn push(&mut self, f: F) {
        if matches!(f, F::SeqV | F::MapK | F::RecV | F::TupV | F::RTV) {
            let last = self.frames.len() - 1;
            self.frames[last].1 += 1;
        }
        self.frames.push((f, 0, None));
    }

    fn push_sized(&mut self, f: F, n: Option<usize>) {
        self.frames.push((f, 0, n));
    }

    fn top(&self) -> F {
        self.frames[self.frames.len() - 1].0
    }

    fn pop(&mut self, f: F, filled: bool) {
        if self.frames.len() > 1 && self.top() == f {
            let (_, n, hint) = self.frames.pop().unwrap();
            if hint.map(|h| h != n as usize).unwrap_or(false) {
                self.lied += 1;
            }
            if filled && n != 1 {
                self.malformed += 1;
            }
        } else {
            self.malformed += 1;
        }
    }

    fn num(&mut self, op: u8, b: &[u8]) -> Result {
        self.tok(op)?;
        self.value_start(false);
        self.log.extend_from_slice(b);
        Ok(())
    }

    fn size(&mut self, n: Option<usize>) {
        if self.cfg.no_sizes {
            return;
        }
        match n {
            None => self.log.push(0),
            Some(n) => {
                self.log.push(1);
                self.log.extend_from_slice(&n.to_le_bytes());
            }
        }
    }

    fn str(&mut self, s: &[u8]) {
        self.log.extend_from_slice(&(s.len() as u16).to_le_bytes());
        self.log.extend_from_slice(s);
    }

    fn tagc(&mut self, tag: Option<&Tag>) {
        self.log.push(tag_code(tag));
    }

    fn label(&mut self, l: &Label) {
        self.str(l.as_str().as_bytes());
        if !self.cfg.no_label_tags {
            self.tagc(l.tag());
        }
    }

    fn index(&mut self, i: &Index) {
        // observable through the 64-bit views
        match i.to_i64() {
            Some(v) => {
                self.log.push(1);
                self.log.extend_from_slice(&v.to_le_bytes());
            }
            None => {
                self.log.push(2);
                self.log
                    .extend_from_slice(&i.to_u64().unwrap_or(u64::MAX).to_le_bytes());
            }
        }
        self.tagc(i.tag());
    }

    fn hdr(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) {
        self.tagc(tag);
        match label {
            None => self.log.push(0),
            Some(l) => {
                self.log.push(1);
                self.label(l);
            }
        }
        match index {
            None => self.log.push(0),
            Some(i) => self.index(i),
        }
    }

    fn frag(&mut self, f: F, op: u8, s: &[u8]) -> Result {
        if self.top() != f {
            self.malformed += 1;
        }
        self.seen += s.len();
        if self.cfg.merge {
            if self.failed {
                self.after_fail += 1;
            }
            if self.tokens == self.fail_at {
                self.failed = true;
                return Err(sval::Error::new());
            }
            self.tokens += 1;
            self.run.extend_from_slice(s);
            self.run_count += 1;
            Ok(())
        } else {
            self.tok(op)?;
            self.str(s);
            Ok(())
        }
    }

    fn run_begin(&mut self, f: F, op: u8, n: Option<usize>) -> Result {
        self.tok(op)?;
        self.value_start(false);
        self.hint = n;
        self.seen = 0;
        if self.cfg.merge {
            self.run.clear();
        }
        if !self.cfg.merge || self.cfg.run_sizes {
            self.size(n);
        }
        self.push(f);
        Ok(())
    }

    fn run_end(&mut self, f: F, op: u8) -> Result {
        if self.hint.map(|n| n != self.seen).unwrap_or(false) {
            self.lied += 1;
        }
        if self.cfg.merge {
            let run = std::mem::take(&mut self.run);
            self.str(&run);
        }
        self.tok(op)?;
        self.pop(f, false);
        Ok(())
    }
}

impl<'sval> Stream<'sval> for Rec {
    fn null(&mut self) -> Result {
        self.num(1, &[])
    }
    fn bool(&mut self, v: bool) -> Result {
        self.num(2, &[v as u8])
    }
    fn u8(&mut self, v: u8) -> Result {
        self.num(3, &v.to_le_bytes())
    }
    fn u16(&mut self, v: u16) -> Result {
        self.num(4, &v.to_le_bytes())
    }
    fn u32(&mut self, v: u32) -> Result {
        self.num(5, &v.to_le_bytes())
    }
    fn u64(&mut self, v: u64) -> Result {
        self.num(6, &v.to_le_bytes())
    }
    fn u128(&mut self, v: u128) -> Result {
        self.num(7, &v.to_le_bytes())
    }
    fn i8(&mut self, v: i8) -> Result {
        self.num(8, &v.to_le_bytes())
    }
    fn i16(&mut self, v: i16) -> Result {
        self.num(9, &v.to_le_bytes())
    }
    fn i32(&mut self, v: i32) -> Result {
        self.num(10, &v.to_le_bytes())
    }
    fn i64(&mut self, v: i64) -> Result {
        self.num(11, &v.to_le_bytes())
    }
    fn i128(&mut self, v: i128) -> Result {
        self.num(12, &v.to_le_bytes())
    }
    fn f32(&mut self, v: f32) -> Result {
        self.num(13, &v.to_bits().to_le_bytes())
    }
    fn f64(&mut self, v: f64) -> Result {
        self.num(14, &v.to_bits().to_le_bytes())
    }
    fn text_begin(&mut self, n: Option<usize>) -> Result {
        self.run_begin(F::Text, 15, n)
    }
    fn text_fragment(&mut self, s: &'sval str) -> Result {
        self.frag(F::Text, 16, s.as_bytes())
    }
    fn text_fragment_computed(&mut self, s: &str) -> Result {
        self.frag(F::Text, 17, s.as_bytes())
    }
    fn text_end(&mut self) -> Result {
        self.run_end(F::Text, 18)
    }
    fn binary_begin(&mut self, n: Option<usize>) -> Result {
        self.run_begin(F::Bin, 19, n)
    }
    fn binary_fragment(&mut self, s: &'sval [u8]) -> Result {
        self.frag(F::Bin, 20, s)
    }
    fn binary_fragment_computed(&mut self, s: &[u8]) -> Result {
        self.frag(F::Bin, 21, s)
    }
    fn binary_end(&mut self) -> Result {
        self.run_end(F::Bin, 22)
    }
    fn seq_begin(&mut self, n: Option<usize>) -> Result {
        self.tok(23)?;
        self.value_start(false);
        self.size(n);
        self.push_sized(F::Seq, n);
        Ok(())
    }
    fn seq_value_begin(&mut self) -> Result {
        self.tok(24)?;
        if self.top() != F::Seq {
            self.malformed += 1;
        }
        self.push(F::SeqV);
        Ok(())
    }
    fn seq_value_end(&mut self) -> Result {
        self.tok(25)?;
        self.pop(F::SeqV, true);
        Ok(())
    }
    fn seq_end(&mut self) -> Result {
        self.tok(26)?;
        self.pop(F::Seq, false);
        Ok(())
    }
    fn map_begin(&mut self, n: Option<usize>) -> Result {
        self.tok(27)?;
        self.value_start(false);
        self.size(n);
        self.push_sized(F::Map, n);
        Ok(())
    }
    fn map_key_begin(&mut self) -> Result {
        self.tok(28)?;
        if self.top() != F::Map {
            self.malformed += 1;
        }
        self.push(F::MapK);
        Ok(())
    }
    fn map_key_end(&mut self) -> Result {
        self.tok(29)?;
        self.pop(F::MapK, true);
        self.push(F::MapKd);
        Ok(())
    }
    fn map_value_begin(&mut self) -> Result {
        self.tok(30)?;
        self.pop(F::MapKd, false);
        self.push(F::MapV);
        Ok(())
    }
    fn map_value_end(&mut self) -> Result {
        self.tok(31)?;
        self.pop(F::MapV, true);
        Ok(())
    }
    fn map_end(&mut self) -> Result {
        self.tok(32)?;
        self.pop(F::Map, false);
        Ok(())
    }
    fn enum_begin(
        &mut self,
        tag: Option<&Tag>,
        label: Option<&Label>,
        index: Option<&Index>,
    ) -> Result {
        self.tok(33)?;
        self.value_start(true);
        self.hdr(tag, label, index);
        self.push(F::Enum);
        Ok(())
    }
    fn enum_end(
        &mut self,
        tag: Option<&Tag>,
        label: Option<&Label>,
        index: Option<&Index>,
    ) -> Result {
        self.tok(34)?;
        self.hdr(tag, label, index);
        // an enum may be empty
        self.pop(F::Enum, false);
        Ok(())
    }
    fn tagged_begin(
        &mut self,
        tag: Option<&Tag>,
        label: Option<&Label>,
        index: Option<&Index>,
    ) -> Result {
        self.tok(35)?;
        self.value_start(true);
        self.hdr(tag, label, index);
        self.push(F::Tagged);
        Ok(())
    }
    fn tagged_end(
        &mut self,
        tag: Option<&Tag>,
        label: Option<&Label>,
        index: Option<&Index>,
    ) -> Result {
        self.tok(36)?;
        self.hdr(tag, label, index);
        self.pop(F::Tagged, true);
        Ok(())
    }
    fn tag(
        &mut self,
        tag: Option<&Tag>,
        label: Option<&Label>,
        index: Option<&Index>,
    ) -> Result {
        self.tok(37)?;
        self.value_start(true);
        self.hdr(tag, label, index);
        Ok(())
    }
    fn tag_hint(&mut self, tag: &Tag) -> Result {
        if self.cfg.no_tag_hints {
            return Ok(());
        }
        self.tok(38)?;
        self.tagc(Some(tag));
        Ok(())
    }
    fn record_begin(
        &mut self,
        tag: Option<&Tag>,
        label: Option<&Label>,
        index: Option<&Index>,
        n: Option<usize>,
    ) -> Result {
        self.tok(39)?;
        self.value_start(true);
        self.hdr(tag, label, index);
        self.size(n);
        self.push_sized(F::Rec, n);
        Ok(())
    }
    fn record_value_begin(&mut self, tag: Option<&Tag>, label: &Label) -> Result {
        self.tok(40)?;
        if self.top() != F::Rec {
            self.malformed += 1;
        }
        self.tagc(tag);
        self.label(label);
        self.push(F::RecV);
        Ok(())
    }
    fn record_value_end(&mut self, tag: Option<&Tag>, label: &Label) -> Result {
        self.tok(41)?;
        self.tagc(tag);
        self.label(label);
        self.pop(F::RecV, true);
        Ok(())
    }
    fn record_end(
        &mut self,
        tag: Option<&Tag>,
        label: Option<&Label>,
        index: Option<&Index>,
    ) -> Result {
        self.tok(42)?;
        self.hdr(tag, label, index);
        self.pop(F::Rec, false);
        Ok(())
    }
    fn tuple_begin(
        &mut self,
        tag: Option<&Tag>,
        label: Option<&Label>,
        index: Option<&Index>,
        n: Option<usize>,
    ) -> Result {
        self.tok(43)?;
        self.value_start(true);
        self.hdr(tag, label, index);
        self.size(n);
        self.push_sized(F::Tup, n);
        Ok(())
    }
    fn tuple_value_begin(&mut self, tag: Option<&Tag>, index: &Index) -> Result {
        self.tok(44)?;
        if self.top() != F::Tup {
            self.malformed += 1;
        }
        self.tagc(tag);
        self.index(index);
        self.push(F::TupV);
        Ok(())
    }
    fn tuple_value_end(&mut self, tag: Option<&Tag>, index: &Index) -> Result {
        self.tok(45)?;
        self.tagc(tag);
        self.index(index);
        self.pop(F::TupV, true);
        Ok(())
    }
    fn tuple_end(
        &mut self,
        tag: Option<&Tag>,
        label: Option<&Label>,
        index: Option<&Index>,
    ) -> Result {
        self.tok(46)?;
        self.hdr(tag, label, index);
        self.pop(F::Tup, false);
        Ok(())
    }
    fn record_tuple_begin(
        &mut self,
        tag: Option<&Tag>,
        label: Option<&Label>,
        index: Option<&Index>,
        n: Option<usize>,
    ) -> Result {
        if self.cfg.rt_as_record {
            return self.record_begin(tag, label, index, n);
        }
        self.tok(47)?;
        self.value_start(true);
        self.hdr(tag, label, index);
        self.size(n);
        self.push_sized(F::RT, n);
        Ok(())
    }
    fn record_tuple_value_begin(
        &mut self,
        tag: Option<&Tag>,
        label: &Label,
        index: &Index,
    ) -> Result {
        if self.cfg.rt_as_record {
            return self.record_value_begin(tag, label);
        }
        self.tok(48)?;
        if self.top() != F::RT {
            self.malformed += 1;
        }
        self.tagc(tag);
        self.label(label);
        self.index(index);
        self.push(F::RTV);
        Ok(())
    }
    fn record_tuple_value_end(
        &mut self,
        tag: Option<&Tag>,
        label: &Label,
        index: &Index,
    ) -> Result {
        if self.cfg.rt_as_record {
            return self.record_value_end(tag, label);
        }
        self.tok(49)?;
        self.tagc(tag);
        self.label(label);
        self.index(index);
        self.pop(F::RTV, true);
        Ok(())
    }
    fn record_tuple_end(
        &mut self,
        tag: Option<&Tag>,
        label: Option<&Label>,
        index: Option<&Index>,
    ) -> Result {
        if self.cfg.rt_as_record {
            return self.record_end(tag, label, index);
        }
        self.tok(50)?;
        self.hdr(tag, label, index);
        self.pop(F::RT, false);
        Ok(())
    }
}

/// A stream that implements only the required methods, over a `Rec`.
pub struct Min(pub Rec);

impl<'sval> Stream<'sval> for Min {
    fn null(&mut self) -> Result {
        self.0.null()
    }
    fn bool(&mut self, v: bool) -> Result {
        self.0.bool(v)
    }
    fn text_begin(&mut self, n: Option<usize>) -> Result {
        self.0.text_begin(n)
    }
    fn text_fragment_computed(&mut self, s: &str) -> Result {
        self.0.text_fragment_computed(s)
    }
    fn text_end(&mut self) -> Result {
        self.0.text_end()
    }
    fn i64(&mut self, v: i64) -> Result {
        self.0.i64(v)
    }
    fn f64(&mut self, v: f64) -> Result {
        self.0.f64(v)
    }
    fn seq_begin(&mut self, n: Option<usize>) -> Result {
        self.0.seq_begin(n)
    }
    fn seq_value_begin(&mut self) -> Result {
        self.0.seq_value_begin()
    }
    fn seq_value_end(&mut self) -> Result {
        self.0.seq_value_end()
    }
    fn seq_end(&mut self) -> Result {
        self.0.seq_end()
    }
}

/// The recording of a value. `Err` when the value reports an error.
pub fn record<V: sval::Value + ?Sized>(cfg: Cfg, v: &V) -> (Rec, bool) {
    let mut r = Rec::new(cfg);
    let ok = v.stream(&mut r).is_ok();
    (r, ok)
}

/// Two recordings agree, both complete and well-formed.
pub fn same(a: &Rec, b: &Rec, m: &str) {
    if !a.complete() {
        rt::fail("the reference stream is malformed (harness)");
    }
    if !b.complete() {
        rt::fail("the stream is malformed");
    }
    if !rt::eq(&a.log, &b.log) {
        rt::fail(m);
    }
    if a.lied == 0 && b.lied != 0 {
        rt::fail("a size hint isn't the size");
    }
}

/// Forwards the first `left` calls to another stream, then fails.
pub struct Cut<S> {
    pub inner: S,
    pub left: usize,
}

macro_rules! cut {
    ($($f:ident($($a:ident: $t:ty),*);)*) => {
        impl<'sval, S: Stream<'sval>> Stream<'sval> for Cut<S> {
            $(
                fn $f(&mut self, $($a: $t),*) -> Result {
                    if self.left == 0 {
                        return Err(sval::Error::new());
                    }
                    self.left -= 1;
                    self.inner.$f($($a),*)
                }
            )*
        }

        impl<'sval, S: Stream<'sval>> Stream<'sval> for Watch<S> {
            $(
                fn $f(&mut self, $($a: $t),*) -> Result {
                    self.inner.$f($($a),*)?;
                    self.left -= 1;
                    if (self.is_complete)(&self.inner) != (self.left == 0) {
                        self.wrong = true;
                    }
                    Ok(())
                }
            )*
        }
    };
}

/// Asks after each call whether the value is complete; it has to be when there are no calls left.
pub struct Watch<S> {
    pub inner: S,
    pub is_complete: fn(&S) -> bool,
    pub left: usize,
    pub wrong: bool,
}

cut! {
    null(); bool(v: bool); u8(v: u8); u16(v: u16); u32(v: u32); u64(v: u64); u128(v: u128); i8(v: i8); i16(v: i16);
    i32(v: i32); i64(v: i64); i128(v: i128); f32(v: f32); f64(v: f64);
    text_begin(n: Option<usize>); text_fragment(s: &'sval str); text_fragment_computed(s: &str); text_end();
    binary_begin(n: Option<usize>); binary_fragment(s: &'sval [u8]); binary_fragment_computed(s: &[u8]); binary_end();
    seq_begin(n: Option<usize>); seq_value_begin(); seq_value_end(); seq_end();
    map_begin(n: Option<usize>); map_key_begin(); map_key_end(); map_value_begin(); map_value_end(); map_end();
    enum_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    enum_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    tagged_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    tagged_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    tag(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    tag_hint(t: &Tag);
    record_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>);
    record_value_begin(t: Option<&Tag>, l: &Label);
    record_value_end(t: Option<&Tag>, l: &Label);
    record_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    tuple_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>);
    tuple_value_begin(t: Option<&Tag>, i: &Index);
    tuple_value_end(t: Option<&Tag>, i: &Index);
    tuple_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    record_tuple_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>);
    record_tuple_value_begin(t: Option<&Tag>, l: &Label, i: &Index);
    record_tuple_value_end(t: Option<&Tag>, l: &Label, i: &Index);
    record_tuple_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
}
