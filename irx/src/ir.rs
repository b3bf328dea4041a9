//! A reader for the textual LLVM IR that rustc emits.

use crate::term::mask;
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Vec(u32, Arc<Ty>),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => 0,
        }
    }

    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            _ => 1,
        }
    }

    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => (*n as u64 + 7) / 8,
            Ty::Vec(..) => (self.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }

    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(_) | Ty::Vec(..) => {
                let a = self.align();
                (self.store_size() + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, _) => {
                let o = self.offset(fs.len());
                let a = self.align();
                (o + a - 1) / a * a
            }
        }
    }

    /// The offset of a field (or the end of the last one).
    pub fn offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (j, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += f.size();
                }
                o
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.store_size(),
            _ => 0,
        }
    }

    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("no element of {:?}", self),
        }
    }

    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }

    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..))
    }
}

/// A constant, with addresses resolved.
#[derive(Clone, Debug)]
pub enum Cv {
    I(u128),
    A(Vec<Cv>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u128),
    A(Arc<Cv>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    BitCast,
    PtrInt,
    FpExt,
    FpTrunc,
    SiToFp,
    UiToFp,
    FpToSi,
    FpToUi,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(usize),
    Ext(Arc<str>),
    Ind(Opd),
    Skip,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(BinOp, Ty, Opd, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(Arc<str>, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    Cast(Cast, Ty, Opd, Ty),
    Select(Ty, Ty, Opd, Opd, Opd),
    Alloca(u64, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, u64, Arc<Vec<(Opd, u32, u64)>>),
    Call(Callee, Arc<Vec<(Ty, Opd)>>, Ty),
    Extract(Opd, Arc<Vec<usize>>),
    Insert(Ty, Opd, Opd, Arc<Vec<usize>>),
    ExtElem(Opd, Opd),
    InsElem(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Arc<Vec<i64>>),
    Copy(Opd),
    Rmw(Arc<str>, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Nop,
    // Terminators
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Arc<Vec<(u128, u32)>>),
    Ret(Opd),
    RetVoid,
    Unreachable,
}

#[derive(Clone, Debug)]
pub struct I {
    pub ins: Ins,
    pub dst: u32,
    pub dbg: u32,
    /// Invoke: where to go after the call.
    pub then: u32,
}

pub const NONE: u32 = u32::MAX;

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub from: Vec<(u32, Opd)>,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<I>,
}

#[derive(Debug)]
pub struct Code {
    pub nregs: usize,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: String,
    pub body: std::ops::Range<usize>,
    pub code: OnceLock<Result<Arc<Code>, String>>,
    /// A function with this name is a panic entry point.
    pub panics: bool,
}

pub struct Global {
    pub name: String,
    pub init: Vec<u8>,
    pub size: u64,
    pub constant: bool,
}

pub struct Module {
    pub text: String,
    pub funcs: Vec<Func>,
    pub fn_ids: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub global_ids: HashMap<String, usize>,
    pub types: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
    pub externs: HashMap<String, usize>,
    pub extern_names: Vec<String>,
    pub meta: HashMap<u32, (usize, usize)>,
}

pub const SHIFT: u32 = 32;
pub const GLOBAL0: u64 = 16;
pub const FN0: u64 = 0x1000_0000;
pub const EXT0: u64 = 0x1800_0000;

pub fn global_addr(i: usize) -> u64 {
    (GLOBAL0 + i as u64) << SHIFT
}
pub fn fn_addr(i: usize) -> u64 {
    (FN0 + i as u64) << SHIFT
}

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
    pub m: &'a Module,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    pub fn new(m: &'a Module, s: &'a str) -> Self {
        P { s: s.as_bytes(), i: 0, m }
    }

    fn err<T>(&self, what: &str) -> R<T> {
        let e = (self.i + 80).min(self.s.len());
        Err(format!(
            "parse error: {what} at `{}` in `{}`",
            String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..e]),
            String::from_utf8_lossy(&self.s[..self.s.len().min(300)])
        ))
    }

    pub fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
                self.i += 1;
            }
            // LLVM annotates some constant arguments
            if !self.s[self.i.min(self.s.len())..].starts_with(b"/*") {
                return;
            }
            while self.i < self.s.len() && !self.s[self.i..].starts_with(b"*/") {
                self.i += 1;
            }
            self.i = (self.i + 2).min(self.s.len());
        }
    }

    pub fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }

    pub fn eat(&mut self, c: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(c.as_bytes()) {
            // Words need a boundary
            let last = c.as_bytes()[c.len() - 1];
            if last.is_ascii_alphanumeric() || last == b'_' {
                if let Some(n) = self.s.get(self.i + c.len()) {
                    if n.is_ascii_alphanumeric() || *n == b'_' || *n == b'.' {
                        return false;
                    }
                }
            }
            self.i += c.len();
            true
        } else {
            false
        }
    }

    pub fn expect(&mut self, c: &str) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            self.err(&format!("expected `{c}`"))
        }
    }

    pub fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' || c == b'+' {
                self.i += 1;
            } else {
                break;
            }
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }

    pub fn peek_word(&mut self) -> &'a str {
        let i = self.i;
        let w = self.word();
        self.i = i;
        w
    }

    /// A name after `%` or `@`.
    pub fn name(&mut self) -> String {
        if self.s.get(self.i) == Some(&b'"') {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            self.word().to_owned()
        }
    }

    pub fn balanced(&mut self) {
        // At an opening bracket: skip to after its match
        let mut d = 0;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                b'"' => {
                    while self.i < self.s.len() && self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                _ => {}
            }
        }
    }

    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                is_type_word(w)
            }
        }
    }

    /// Skip attributes, calling conventions and so on, up to a type.
    pub fn skip_to_type(&mut self) -> R<()> {
        let mut n = 0;
        while !self.at_type() {
            n += 1;
            if n > 60 {
                return self.err("expected a type");
            }
            match self.peek() {
                b'#' => {
                    self.i += 1;
                    self.word();
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                    if self.peek() == b'=' {
                        self.i += 1;
                        self.ws();
                        self.i += 1;
                        while self.s[self.i] != b'"' {
                            self.i += 1;
                        }
                        self.i += 1;
                    }
                }
                _ => {
                    let w = self.word();
                    if w.is_empty() {
                        return self.err("expected an attribute");
                    }
                    if w == "align" || w == "cc" || w == "addrspace" {
                        if self.peek() == b'(' {
                            self.balanced()
                        } else {
                            self.word();
                        }
                    } else if self.peek() == b'(' {
                        self.balanced();
                    }
                }
            }
        }
        Ok(())
    }

    /// Skip attributes between a type and its operand.
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if !c.is_ascii_alphabetic() {
                return;
            }
            let i = self.i;
            let w = self.word();
            match w {
                "align" => {
                    if self.peek() == b'(' {
                        self.balanced()
                    } else {
                        self.word();
                    }
                }
                "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "writeonly" | "readnone"
                | "zeroext" | "signext" | "inreg" | "returned" | "immarg" | "nocapture" | "swiftself"
                | "swifterror" | "nest" | "allocptr" | "allocalign" | "writable" | "dead_on_unwind"
                | "noext" | "dead_on_return" => {
                    if self.s.get(self.i) == Some(&b'(') {
                        self.balanced()
                    }
                }
                "sret" | "byval" | "byref" | "captures" | "dereferenceable" | "dereferenceable_or_null"
                | "initializes" | "range" | "nofpclass" | "elementtype" | "preallocated" | "inalloca" => {
                    if self.peek() == b'(' {
                        self.balanced()
                    }
                }
                _ => {
                    self.i = i;
                    return;
                }
            }
        }
    }

    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.peek() {
            b'{' => {
                self.i += 1;
                let fs = self.ty_list('}')?;
                Ty::Struct(Arc::new(fs), false)
            }
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().map_err(|_| "array length".to_owned())?;
                self.expect("x")?;
                let t = self.ty()?;
                self.expect("]")?;
                Ty::Arr(n, Arc::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let fs = self.ty_list('}')?;
                    self.expect(">")?;
                    Ty::Struct(Arc::new(fs), true)
                } else {
                    let n: u32 = self.word().parse().map_err(|_| "vector length".to_owned())?;
                    self.expect("x")?;
                    let t = self.ty()?;
                    self.expect(">")?;
                    Ty::Vec(n, Arc::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eat("addrspace") {
                            self.balanced();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "token" | "half" | "fp128" | "opaque" | "bfloat" | "x86_fp80" => Ty::Other,
                    _ if w.starts_with('i') => match w[1..].parse() {
                        Ok(n) => Ty::Int(n),
                        Err(_) => return self.err("type"),
                    },
                    _ => return self.err("type"),
                }
            }
        };
        Ok(t)
    }

    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut fs = Vec::new();
        let e = end.to_string();
        if self.eat(&e) {
            return Ok(fs);
        }
        loop {
            fs.push(self.ty()?);
            if self.eat(&e) {
                return Ok(fs);
            }
            self.expect(",")?;
        }
    }

    fn cstring(&mut self) -> Vec<u8> {
        // After `c"`
        let mut v = Vec::new();
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }

    fn zero(t: &Ty) -> Cv {
        if t.is_agg() {
            Cv::A((0..t.count()).map(|i| P::zero(&t.elem(i))).collect())
        } else {
            Cv::I(0)
        }
    }

    pub fn addr_of(&self, n: &str) -> R<u64> {
        let mut n = n;
        while let Some(a) = self.m.aliases.get(n) {
            n = a;
        }
        if let Some(i) = self.m.global_ids.get(n) {
            return Ok(global_addr(*i));
        }
        if let Some(i) = self.m.fn_ids.get(n) {
            return Ok(fn_addr(*i));
        }
        if let Some(i) = self.m.externs.get(n) {
            return Ok((EXT0 + *i as u64) << SHIFT);
        }
        Err(format!("unknown symbol @{n}"))
    }

    pub fn constant(&mut self, t: &Ty) -> R<Cv> {
        match self.peek() {
            b'@' => {
                self.i += 1;
                let n = self.name();
                return Ok(Cv::I(self.addr_of(&n)? as u128));
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let b = self.cstring();
                return Ok(Cv::A(b.into_iter().map(|x| Cv::I(x as u128)).collect()));
            }
            b'{' | b'[' | b'<' => {
                let open = self.s[self.i];
                self.i += 1;
                let mut packed = false;
                if open == b'<' && self.peek() == b'{' {
                    self.i += 1;
                    packed = true;
                }
                let close = match (open, packed) {
                    (b'{', _) => "}",
                    (b'[', _) => "]",
                    (_, true) => "}>",
                    _ => ">",
                };
                let mut v = Vec::new();
                if self.eat(close) {
                    return Ok(Cv::A(v));
                }
                loop {
                    let et = self.ty()?;
                    v.push(self.constant(&et)?);
                    if self.eat(close) {
                        return Ok(Cv::A(v));
                    }
                    self.expect(",")?;
                }
            }
            _ => {}
        }
        let w = self.word();
        match w {
            "null" | "false" | "none" => Ok(Cv::I(0)),
            "true" => Ok(Cv::I(1)),
            "undef" | "poison" | "zeroinitializer" => Ok(P::zero(t)),
            "splat" => {
                self.expect("(")?;
                let et = self.ty()?;
                let v = self.constant(&et)?;
                self.expect(")")?;
                Ok(Cv::A(vec![v; t.count()]))
            }
            "getelementptr" => {
                while self.peek() != b'(' {
                    let w = self.word();
                    if w == "inrange" {
                        self.balanced();
                    }
                }
                self.expect("(")?;
                let et = self.ty()?;
                self.expect(",")?;
                let pt = self.ty()?;
                let base = self.cint(&pt)?;
                let mut cur = et.clone();
                let mut addr = base as u64;
                let mut first = true;
                while self.eat(",") {
                    let it = self.ty()?;
                    let v = self.cint(&it)?;
                    let v = crate::term::sext(v, it.bits()) as i64;
                    if first {
                        addr = addr.wrapping_add((et.size() as i64).wrapping_mul(v) as u64);
                        first = false;
                    } else {
                        addr = addr.wrapping_add(cur.offset(v as usize));
                        cur = cur.elem(v as usize);
                    }
                }
                self.expect(")")?;
                Ok(Cv::I(addr as u128))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.expect("(")?;
                let ft = self.ty()?;
                let v = self.cint(&ft)?;
                self.expect("to")?;
                let tt = self.ty()?;
                self.expect(")")?;
                Ok(Cv::I(v & mask(tt.bits())))
            }
            "add" | "sub" | "xor" | "mul" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.expect("(")?;
                let ft = self.ty()?;
                let a = self.cint(&ft)?;
                self.expect(",")?;
                let gt = self.ty()?;
                let b = self.cint(&gt)?;
                self.expect(")")?;
                let r = match w {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    _ => a ^ b,
                };
                Ok(Cv::I(r & mask(ft.bits())))
            }
            _ => {
                match t {
                    Ty::F32 | Ty::F64 => {
                        let f: f64 = if let Some(h) = w.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                        } else if let Some(h) = w.strip_prefix("f0x") {
                            let b = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            return Ok(Cv::I(b as u128));
                        } else {
                            match w {
                                "+inf" | "inf" => f64::INFINITY,
                                "-inf" => f64::NEG_INFINITY,
                                "+qnan" | "nan" => f64::NAN,
                                "-qnan" => -f64::NAN,
                                _ => w.parse().map_err(|_| format!("float {w}"))?,
                            }
                        };
                        return Ok(Cv::I(if *t == Ty::F32 {
                            (f as f32).to_bits() as u128
                        } else {
                            f.to_bits() as u128
                        }));
                    }
                    _ => {}
                }
                if let Ok(v) = w.parse::<i128>() {
                    return Ok(Cv::I(v as u128 & mask(t.bits())));
                }
                if let Ok(v) = w.parse::<u128>() {
                    return Ok(Cv::I(v & mask(t.bits())));
                }
                if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) {
                    if let Ok(v) = u128::from_str_radix(h, 16) {
                        return Ok(Cv::I(v & mask(t.bits())));
                    }
                }
                self.err("constant")
            }
        }
    }

    fn cint(&mut self, t: &Ty) -> R<u128> {
        match self.constant(t)? {
            Cv::I(v) => Ok(v),
            _ => self.err("expected a scalar constant"),
        }
    }
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "fp128" | "x86_fp80" | "bfloat")
        || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
}

pub fn write_const(t: &Ty, v: &Cv, out: &mut [u8]) {
    match (t, v) {
        (t, Cv::A(vs)) => {
            for (i, x) in vs.iter().enumerate() {
                let o = t.offset(i) as usize;
                write_const(&t.elem(i), x, &mut out[o..]);
            }
        }
        (t, Cv::I(x)) => {
            let n = t.store_size() as usize;
            out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
    }
}

impl Module {
    pub fn load(text: String) -> R<Module> {
        let mut m = Module {
            text: String::new(),
            funcs: Vec::new(),
            fn_ids: HashMap::new(),
            globals: Vec::new(),
            global_ids: HashMap::new(),
            types: HashMap::new(),
            aliases: HashMap::new(),
            externs: HashMap::new(),
            extern_names: Vec::new(),
            meta: HashMap::new(),
        };
        let mut pos = 0;
        let mut glines = Vec::new();
        let mut tlines = Vec::new();
        let mut in_fn: Option<(String, usize)> = None;
        for line in text.split_inclusive('\n') {
            let st = pos;
            pos += line.len();
            let b = line.as_bytes();
            if let Some((name, start)) = &in_fn {
                if b[0] == b'}' {
                    let id = m.funcs.len();
                    m.fn_ids.insert(name.clone(), id);
                    m.funcs.push(Func {
                        panics: is_panic(name),
                        name: name.clone(),
                        body: *start..st,
                        code: OnceLock::new(),
                    });
                    in_fn = None;
                }
                continue;
            }
            match b[0] {
                b'@' => glines.push((st, pos)),
                b'%' => tlines.push((st, pos)),
                b'!' => {
                    let e = line.find(' ').unwrap_or(1);
                    if let Ok(n) = line[1..e].parse::<u32>() {
                        m.meta.insert(n, (st, pos));
                    }
                }
                b'd' if line.starts_with("define ") => {
                    let name = fn_name(&m, line);
                    in_fn = Some((name, st));
                }
                b'd' if line.starts_with("declare ") => {
                    let name = fn_name(&m, line);
                    let id = m.extern_names.len();
                    m.externs.insert(name.clone(), id);
                    m.extern_names.push(name);
                }
                _ => {}
            }
        }
        for (s, e) in tlines {
            let line = &text[s..e];
            let (name, t) = {
                let mut p = P::new(&m, line);
                p.i = 1;
                let name = p.name();
                p.expect("=")?;
                p.expect("type")?;
                (name, p.ty()?)
            };
            m.types.insert(name, t);
        }
        // Names first, then initialisers
        let mut kept = Vec::new();
        for (s, e) in glines {
            let line = &text[s..e];
            let mut p = P::new(&m, line);
            p.i = 1;
            let name = p.name();
            p.expect("=")?;
            let mut constant = false;
            let mut alias = false;
            let mut external = false;
            loop {
                let w = p.word();
                match w {
                    "global" => break,
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "alias" => {
                        alias = true;
                        break;
                    }
                    "external" | "extern_weak" => external = true,
                    "" => return p.err("global"),
                    _ => {
                        if p.peek() == b'(' {
                            p.balanced();
                        }
                    }
                }
            }
            let at = p.i;
            if alias {
                let mut p2 = P::new(&m, line);
                p2.i = at;
                p2.ty()?;
                p2.expect(",")?;
                p2.ty()?;
                p2.expect("@")?;
                let target = p2.name();
                m.aliases.insert(name, target);
                continue;
            }
            let id = m.globals.len();
            m.global_ids.insert(name.clone(), id);
            m.globals.push(Global { name, init: Vec::new(), size: 0, constant });
            kept.push((s, e, at, external));
        }
        for (i, (s, e, at, external)) in kept.into_iter().enumerate() {
            let line = &text[s..e];
            let (size, init) = {
                let mut p = P::new(&m, line);
                p.i = at;
                let t = p.ty()?;
                let size = t.size();
                let mut init = vec![0u8; size as usize];
                if !external {
                    let v = p.constant(&t)?;
                    write_const(&t, &v, &mut init);
                }
                (size, init)
            };
            m.globals[i].size = size;
            m.globals[i].init = init;
        }
        m.text = text;
        Ok(m)
    }

    pub fn code(&self, f: usize) -> R<Arc<Code>> {
        self.funcs[f]
            .code
            .get_or_init(|| {
                parse_fn(self, &self.text[self.funcs[f].body.clone()])
                    .map(Arc::new)
                    .map_err(|e| format!("{} (in {})", e, self.funcs[f].name))
            })
            .clone()
    }
}

fn fn_name(m: &Module, line: &str) -> String {
    let i = line.find('@').unwrap() + 1;
    let mut p = P::new(m, line);
    p.i = i;
    p.name()
}

fn is_panic(n: &str) -> bool {
    n.contains("9panicking9panic_fmt")
        || n.contains("9panicking18panic_nounwind_fmt")
        || n.contains("17rust_begin_unwind")
        || n.contains("10rust_panic")
        || n.contains("18handle_alloc_error")
        || n.contains("8___rustc26___rust_alloc_error_handler")
}

struct Fp<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl<'a> Fp<'a> {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }

    fn block(&mut self, n: &str) -> R<u32> {
        self.blocks.get(n).copied().ok_or_else(|| format!("unknown block {n}"))
    }

    fn opd(&mut self, p: &mut P<'a>, t: &Ty) -> R<Opd> {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Ok(Opd::R(self.reg(n)));
        }
        Ok(match p.constant(t)? {
            Cv::I(v) => Opd::C(v),
            a => Opd::A(Arc::new(a)),
        })
    }

    fn typed(&mut self, p: &mut P<'a>) -> R<(Ty, Opd)> {
        let t = p.ty()?;
        p.skip_attrs();
        let o = self.opd(p, &t)?;
        Ok((t, o))
    }

    fn label(&mut self, p: &mut P<'a>) -> R<u32> {
        p.expect("label")?;
        p.expect("%")?;
        let n = p.name();
        self.block(&n)
    }
}

fn parse_fn(m: &Module, text: &str) -> R<Code> {
    let mut lines = text.lines();
    let head = lines.next().unwrap();
    let mut fp = Fp { m, regs: HashMap::new(), blocks: HashMap::new() };

    // Parameters
    let mut params = Vec::new();
    {
        let mut p = P::new(m, head);
        p.i = head.find('@').unwrap() + 1;
        p.name();
        p.expect("(")?;
        let mut n = 0;
        while p.peek() != b')' {
            if p.eat("...") {
                break;
            }
            p.ty()?;
            p.skip_attrs();
            if p.peek() == b'%' {
                p.i += 1;
                let name = p.name();
                params.push(fp.reg(name));
            } else {
                params.push(fp.reg(format!("{n}")));
            }
            n += 1;
            if !p.eat(",") {
                break;
            }
        }
    }

    // Logical lines, by block
    let mut blocks: Vec<(String, Vec<String>)> = Vec::new();
    for l in lines {
        let t = l.trim_end();
        if t.is_empty() || t.starts_with(';') {
            continue;
        }
        if !t.starts_with(' ') {
            // A label
            let n = if let Some(r) = t.strip_prefix('"') {
                r[..r.find('"').unwrap()].to_owned()
            } else {
                t[..t.find(':').ok_or_else(|| format!("label in `{t}`"))?].to_owned()
            };
            blocks.push((n, Vec::new()));
            continue;
        }
        if blocks.is_empty() {
            // An unnamed entry block takes the number after the parameters
            let n = fp.regs.keys().filter(|k| k.bytes().all(|b| b.is_ascii_digit())).count();
            blocks.push((format!("{n}"), Vec::new()));
        }
        let tr = t.trim_start();
        if tr.starts_with("#dbg_") || tr.starts_with(';') {
            continue;
        }
        let cur = &mut blocks.last_mut().unwrap().1;
        if t.starts_with("   ") || t.starts_with("  ]") {
            let last = cur.last_mut().ok_or("continuation")?;
            last.push(' ');
            last.push_str(tr);
        } else {
            cur.push(tr.to_owned());
        }
    }
    for (i, (n, _)) in blocks.iter().enumerate() {
        fp.blocks.insert(n.clone(), i as u32);
    }

    let mut out = Vec::new();
    for (_, ls) in &blocks {
        let mut b = Block { phis: Vec::new(), ins: Vec::new() };
        for l in ls {
            // SAFETY-free lifetime trick: parse from a leaked line is avoided by cloning the text
            parse_ins(&mut fp, l, &mut b).map_err(|e| format!("{e}; line `{}`", &l[..l.len().min(400)]))?;
        }
        out.push(b);
    }
    Ok(Code { nregs: fp.regs.len(), params, blocks: out })
}

fn parse_ins<'a>(fp: &mut Fp<'a>, line: &str, b: &mut Block) -> R<()> {
    let line: &'a str = Box::leak(line.to_owned().into_boxed_str());
    let mut p = P::new(fp.m, line);
    let p = &mut p;
    let mut dst = NONE;
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.name();
        dst = fp.reg(n);
        p.expect("=")?;
    }
    let dbg = match line.rfind("!dbg !") {
        Some(i) => line[i + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(0),
        None => 0,
    };
    let mut then = NONE;
    let w = p.word();
    let ins = match w {
        "phi" => {
            while !p.at_type() {
                p.word();
            }
            let t = p.ty()?;
            let mut from = Vec::new();
            loop {
                p.expect("[")?;
                let v = fp.opd(p, &t)?;
                p.expect(",")?;
                p.expect("%")?;
                let n = p.name();
                p.expect("]")?;
                from.push((fp.block(&n)?, v));
                if !p.eat(",") || p.peek() == b'!' {
                    break;
                }
            }
            b.phis.push(Phi { dst, from });
            return Ok(());
        }
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and"
        | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            p.skip_to_type()?;
            let t = p.ty()?;
            let x = fp.opd(p, &t)?;
            p.expect(",")?;
            let y = fp.opd(p, &t)?;
            let op = match w {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "fadd" => BinOp::FAdd,
                "fsub" => BinOp::FSub,
                "fmul" => BinOp::FMul,
                "fdiv" => BinOp::FDiv,
                _ => BinOp::FRem,
            };
            Ins::Bin(op, t, x, y)
        }
        "fneg" => {
            p.skip_to_type()?;
            let (t, x) = fp.typed(p)?;
            Ins::FNeg(t, x)
        }
        "icmp" => {
            let mut pw = p.word();
            if pw == "samesign" {
                pw = p.word();
            }
            let pr = match pw {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                _ => return p.err("predicate"),
            };
            let t = p.ty()?;
            let x = fp.opd(p, &t)?;
            p.expect(",")?;
            let y = fp.opd(p, &t)?;
            Ins::ICmp(pr, t, x, y)
        }
        "fcmp" => {
            let mut pw = p.word();
            while matches!(pw, "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                pw = p.word();
            }
            let t = p.ty()?;
            let x = fp.opd(p, &t)?;
            p.expect(",")?;
            let y = fp.opd(p, &t)?;
            Ins::FCmp(pw.into(), t, x, y)
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fpext" | "fptrunc" | "sitofp"
        | "uitofp" | "fptosi" | "fptoui" | "ptrtoaddr" => {
            p.skip_to_type()?;
            let (ft, x) = fp.typed(p)?;
            p.expect("to")?;
            let tt = p.ty()?;
            let k = match w {
                "trunc" => Cast::Trunc,
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "bitcast" => Cast::BitCast,
                "fpext" => Cast::FpExt,
                "fptrunc" => Cast::FpTrunc,
                "sitofp" => Cast::SiToFp,
                "uitofp" => Cast::UiToFp,
                "fptosi" => Cast::FpToSi,
                "fptoui" => Cast::FpToUi,
                _ => Cast::PtrInt,
            };
            Ins::Cast(k, ft, x, tt)
        }
        "select" => {
            p.skip_to_type()?;
            let (ct, c) = fp.typed(p)?;
            p.expect(",")?;
            let (t, x) = fp.typed(p)?;
            p.expect(",")?;
            let (_, y) = fp.typed(p)?;
            Ins::Select(ct, t, c, x, y)
        }
        "alloca" => {
            let t = p.ty()?;
            let mut n = Opd::C(1);
            if p.eat(",") && p.at_type() {
                let (_, x) = fp.typed(p)?;
                n = x;
            }
            Ins::Alloca(t.size(), n)
        }
        "load" => {
            p.eat("atomic");
            p.eat("volatile");
            let t = p.ty()?;
            p.expect(",")?;
            let (_, x) = fp.typed(p)?;
            Ins::Load(t, x)
        }
        "store" => {
            p.eat("atomic");
            p.eat("volatile");
            let (t, v) = fp.typed(p)?;
            p.expect(",")?;
            let (_, x) = fp.typed(p)?;
            Ins::Store(t, v, x)
        }
        "getelementptr" => {
            p.skip_to_type()?;
            let et = p.ty()?;
            p.expect(",")?;
            let (_, base) = fp.typed(p)?;
            let mut off = 0u64;
            let mut vars = Vec::new();
            let mut cur = et.clone();
            let mut first = true;
            while p.peek() == b',' {
                let save = p.i;
                p.i += 1;
                if p.peek() == b'!' {
                    p.i = save;
                    break;
                }
                let (it, x) = fp.typed(p)?;
                match x {
                    Opd::C(v) => {
                        let v = crate::term::sext(v, it.bits()) as i64;
                        if first {
                            off = off.wrapping_add((et.size() as i64).wrapping_mul(v) as u64);
                        } else {
                            off = off.wrapping_add(cur.offset(v as usize));
                            cur = cur.elem(v as usize);
                        }
                    }
                    _ => {
                        if first {
                            vars.push((x, it.bits(), et.size()));
                        } else {
                            let e = cur.elem(0);
                            vars.push((x, it.bits(), e.size()));
                            cur = e;
                        }
                    }
                }
                first = false;
            }
            Ins::Gep(base, off, Arc::new(vars))
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if matches!(w, "tail" | "musttail" | "notail") {
                p.word();
            }
            p.skip_to_type()?;
            let t = p.ty()?;
            if p.peek() == b'(' {
                // A full function type
                p.balanced();
            }
            let mut asm = false;
            let callee = match p.peek() {
                b'@' => {
                    p.i += 1;
                    let mut n = p.name();
                    while let Some(a) = fp.m.aliases.get(&n) {
                        n = a.clone();
                    }
                    if let Some(f) = fp.m.fn_ids.get(&n) {
                        Callee::Fn(*f)
                    } else if n.starts_with("llvm.lifetime.")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.dbg.")
                        || n.starts_with("llvm.invariant.")
                        || n.starts_with("llvm.donothing")
                        || n.starts_with("llvm.prefetch")
                    {
                        Callee::Skip
                    } else {
                        Callee::Ext(n.into())
                    }
                }
                b'%' => {
                    p.i += 1;
                    let n = p.name();
                    Callee::Ind(Opd::R(fp.reg(n)))
                }
                _ => {
                    if p.eat("asm") {
                        asm = true;
                        Callee::Skip
                    } else {
                        return p.err("callee");
                    }
                }
            };
            let mut args = Vec::new();
            if asm {
                return {
                    b.ins.push(I { ins: Ins::Nop, dst: NONE, dbg, then });
                    Ok(())
                };
            }
            if let Callee::Skip = callee {
                Ins::Nop
            } else {
                p.expect("(")?;
                while p.peek() != b')' {
                    let at = p.ty()?;
                    p.skip_attrs();
                    if at == Ty::Other {
                        // Metadata
                        if p.peek() == b'!' {
                            p.i += 1;
                            if p.peek() == b'"' {
                                p.i += 1;
                                while p.s[p.i] != b'"' {
                                    p.i += 1;
                                }
                                p.i += 1;
                            } else {
                                p.word();
                                if p.peek() == b'(' || p.peek() == b'{' {
                                    p.balanced();
                                }
                            }
                        }
                        args.push((Ty::Int(1), Opd::C(0)));
                    } else {
                        let o = fp.opd(p, &at)?;
                        args.push((at, o));
                    }
                    if !p.eat(",") {
                        break;
                    }
                }
                p.expect(")")?;
                if w == "invoke" {
                    let i = line.rfind(" to label %").ok_or("invoke")?;
                    p.i = i + 4;
                    then = fp.label(p)?;
                }
                Ins::Call(callee, Arc::new(args), t)
            }
        }
        "extractvalue" => {
            let (_, x) = fp.typed(p)?;
            let mut ix = Vec::new();
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.word().parse::<usize>().map_err(|e| e.to_string())?);
            }
            Ins::Extract(x, Arc::new(ix))
        }
        "insertvalue" => {
            let (t, x) = fp.typed(p)?;
            p.expect(",")?;
            let (_, y) = fp.typed(p)?;
            let mut ix = Vec::new();
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.word().parse::<usize>().map_err(|e| e.to_string())?);
            }
            Ins::Insert(t, x, y, Arc::new(ix))
        }
        "extractelement" => {
            let (_, x) = fp.typed(p)?;
            p.expect(",")?;
            let (_, y) = fp.typed(p)?;
            Ins::ExtElem(x, y)
        }
        "insertelement" => {
            let (_, x) = fp.typed(p)?;
            p.expect(",")?;
            let (_, y) = fp.typed(p)?;
            p.expect(",")?;
            let (_, z) = fp.typed(p)?;
            Ins::InsElem(x, y, z)
        }
        "shufflevector" => {
            let (_, x) = fp.typed(p)?;
            p.expect(",")?;
            let (_, y) = fp.typed(p)?;
            p.expect(",")?;
            let mt = p.ty()?;
            let mk = match p.constant(&mt)? {
                Cv::A(v) => v
                    .into_iter()
                    .map(|x| match x {
                        Cv::I(v) => v as i64,
                        _ => 0,
                    })
                    .collect(),
                _ => return p.err("mask"),
            };
            Ins::Shuffle(x, y, Arc::new(mk))
        }
        "freeze" => {
            let (_, x) = fp.typed(p)?;
            Ins::Copy(x)
        }
        "atomicrmw" => {
            p.eat("volatile");
            let op = p.word().to_owned();
            let (_, ptr) = fp.typed(p)?;
            p.expect(",")?;
            let (t, v) = fp.typed(p)?;
            Ins::Rmw(op.as_str().into(), t, ptr, v)
        }
        "cmpxchg" => {
            p.eat("weak");
            p.eat("volatile");
            let (_, ptr) = fp.typed(p)?;
            p.expect(",")?;
            let (t, c) = fp.typed(p)?;
            p.expect(",")?;
            let (_, n) = fp.typed(p)?;
            Ins::CmpXchg(t, ptr, c, n)
        }
        "fence" => Ins::Nop,
        "landingpad" | "resume" | "catchswitch" | "cleanuppad" | "cleanupret" | "catchpad" => Ins::Unreachable,
        "br" => {
            if p.peek_word() == "label" {
                Ins::Br(fp.label(p)?)
            } else {
                let (_, c) = fp.typed(p)?;
                p.expect(",")?;
                let x = fp.label(p)?;
                p.expect(",")?;
                let y = fp.label(p)?;
                Ins::CondBr(c, x, y)
            }
        }
        "switch" => {
            let (t, v) = fp.typed(p)?;
            p.expect(",")?;
            let d = fp.label(p)?;
            p.expect("[")?;
            let mut cs = Vec::new();
            while p.peek() != b']' {
                let ct = p.ty()?;
                let k = p.cint(&ct)?;
                p.expect(",")?;
                cs.push((k, fp.label(p)?));
            }
            Ins::Switch(t, v, d, Arc::new(cs))
        }
        "ret" => {
            if p.peek_word() == "void" {
                Ins::RetVoid
            } else {
                let (_, x) = fp.typed(p)?;
                Ins::Ret(x)
            }
        }
        "unreachable" => Ins::Unreachable,
        _ => return p.err("instruction"),
    };
    b.ins.push(I { ins, dst, dbg, then });
    Ok(())
}
