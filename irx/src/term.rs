//! Hash-consed bit-vector terms over symbolic input bytes.

use std::collections::HashMap;

/// Which input bytes a term depends on.
pub type Support = [u64; 4];

pub const MAX_VARS: u32 = 256;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var,
    Const,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    /// No unsigned overflow of a product.
    UMulOk,
    /// No signed overflow or underflow of a product.
    SMulOk,
    /// Floating point compare; the predicate is in `k`.
    FEq,
    FLt,
    FLe,
    FIsNan,
    /// Float to float of another width, and so on.
    FpExt,
    FpTrunc,
    SiToFp,
    UiToFp,
    FpToSi,
    FpToUi,
    FAdd,
    FSub,
    FMul,
    FDiv,
    /// Rounded to an integral value.
    FTrunc,
    FFloor,
    FCeil,
}

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Key {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    /// Constant value, variable number, or the low bit of an extract.
    pub k: u128,
}

pub struct Arena {
    pub nodes: Vec<Key>,
    pub sup: Vec<Support>,
    map: HashMap<Key, T, std::hash::BuildHasherDefault<Fx>>,
    tables: HashMap<T, Box<[u128; 256]>>,
    truths: HashMap<T, [u64; 4]>,
}

#[derive(Default, Clone)]
pub struct Fx(u64);

impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

/// The meaning of an operator on constants (`None` where it's undefined).
pub fn fold2(op: Op, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        Op::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        Op::SDiv => {
            if b == 0 {
                return None;
            }
            (sext(a, w).wrapping_div(sext(b, w)) as u128) & m
        }
        Op::SRem => {
            if b == 0 {
                return None;
            }
            (sext(a, w).wrapping_rem(sext(b, w)) as u128) & m
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sext(a, w);
            let b = if b >= w as u128 { w - 1 } else { b as u32 };
            ((s >> b) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => return None,
    })
}

fn f_of(w: u32, v: u128) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}

pub fn fold_f(op: Op, from: u32, to: u32, a: u128, b: u128) -> Option<u128> {
    Some(match op {
        Op::FEq => (f_of(from, a) == f_of(from, b)) as u128,
        Op::FLt => (f_of(from, a) < f_of(from, b)) as u128,
        Op::FLe => (f_of(from, a) <= f_of(from, b)) as u128,
        Op::FIsNan => f_of(from, a).is_nan() as u128,
        Op::FpExt => match (from, to) {
            (32, 64) => (f32::from_bits(a as u32) as f64).to_bits() as u128,
            _ => return None,
        },
        Op::FpTrunc => match (from, to) {
            (64, 32) => (f64::from_bits(a as u64) as f32).to_bits() as u128,
            _ => return None,
        },
        Op::SiToFp => {
            let v = sext(a, from);
            if to == 32 {
                (v as f32).to_bits() as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        Op::UiToFp => {
            if to == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Op::FpToSi => {
            let f = f_of(from, a);
            (f as i128 as u128) & mask(to)
        }
        Op::FpToUi => {
            let f = f_of(from, a);
            (f as u128) & mask(to)
        }
        Op::FTrunc | Op::FFloor | Op::FCeil => {
            macro_rules! go {
                ($t:ty, $u:ty) => {{
                    let x = <$t>::from_bits(a as $u);
                    (match op {
                        Op::FTrunc => x.trunc(),
                        Op::FFloor => x.floor(),
                        _ => x.ceil(),
                    })
                    .to_bits() as u128
                }};
            }
            if from == 32 {
                go!(f32, u32)
            } else {
                go!(f64, u64)
            }
        }
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            macro_rules! go {
                ($t:ty, $u:ty) => {{
                    let (x, y) = (<$t>::from_bits(a as $u), <$t>::from_bits(b as $u));
                    (match op {
                        Op::FAdd => x + y,
                        Op::FSub => x - y,
                        Op::FMul => x * y,
                        _ => x / y,
                    })
                    .to_bits() as u128
                }};
            }
            if from == 32 {
                go!(f32, u32)
            } else {
                go!(f64, u64)
            }
        }
        _ => return None,
    })
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            nodes: Vec::new(),
            sup: Vec::new(),
            map: HashMap::default(),
            tables: HashMap::new(),
            truths: HashMap::new(),
        }
    }

    pub fn mk(&mut self, k: Key) -> T {
        if let Some(t) = self.map.get(&k) {
            return *t;
        }
        let t = self.nodes.len() as T;
        let mut s: Support = [0; 4];
        match k.op {
            Op::Var => s[(k.k / 64) as usize] |= 1 << (k.k % 64),
            Op::Const => {}
            _ => {
                let n = arity(k.op);
                for (i, x) in [k.a, k.b, k.c].into_iter().enumerate() {
                    if i < n {
                        let o = self.sup[x as usize];
                        for j in 0..4 {
                            s[j] |= o[j];
                        }
                    }
                }
            }
        }
        self.nodes.push(k);
        self.sup.push(s);
        self.map.insert(k, t);
        t
    }

    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w as u32
    }

    pub fn cval(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    pub fn var(&mut self, i: u32) -> T {
        self.mk(Key { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }

    pub fn cst(&mut self, w: u32, v: u128) -> T {
        self.mk(Key { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: v & mask(w) })
    }

    fn n2(&mut self, op: Op, w: u32, a: T, b: T) -> T {
        self.mk(Key { op, w: w as u16, a, b, c: 0, k: 0 })
    }

    pub fn not(&mut self, a: T) -> T {
        let n = self.nodes[a as usize];
        if n.op == Op::Const {
            return self.cst(n.w as u32, !n.k);
        }
        if n.op == Op::Not {
            return n.a;
        }
        self.mk(Key { op: Op::Not, w: n.w, a, b: 0, c: 0, k: 0 })
    }

    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let (mut a, mut b) = (a, b);
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = fold2(op, w, x, y) {
                let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
                return self.cst(rw, r);
            }
        }
        // Constants go on the right of commutative operators
        let comm = matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul | Op::Eq);
        let (mut ca, mut cb) = (ca, cb);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(w);
        match op {
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    // A mask of low bits
                    if y.wrapping_add(1).is_power_of_two() {
                        let k = y.count_ones();
                        let e = self.extract(a, k - 1, 0);
                        return self.zext(e, w);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                }
                if let Some(r) = self.or_concat(a, b, w) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return self.not(a);
                    }
                }
            }
            Op::Add => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let n = self.nodes[a as usize];
                    if n.op == Op::Add {
                        if let Some(z) = self.cval(n.b) {
                            let k = self.cst(w, y.wrapping_add(z));
                            return self.bin(Op::Add, n.a, k);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(y) = cb {
                    let k = self.cst(w, (!y).wrapping_add(1));
                    return self.bin(Op::Add, a, k);
                }
            }
            Op::Mul => {
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y < w as u128 {
                        let y = y as u32;
                        if op == Op::Shl {
                            let e = self.extract(a, w - 1 - y, 0);
                            let z = self.cst(y, 0);
                            return self.concat(e, z);
                        }
                        let e = self.extract(a, w - 1, y);
                        return if op == Op::LShr { self.zext(e, w) } else { self.sext(e, w) };
                    }
                    if op != Op::AShr {
                        return self.cst(w, 0);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if w == 1 {
                    if let Some(y) = cb {
                        return if y == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(y) = cb {
                    let n = self.nodes[a as usize];
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if y >> iw != 0 {
                                return self.cst(1, 0);
                            }
                            let k = self.cst(iw, y);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(n.b);
                            let hw = self.w(n.a);
                            let kl = self.cst(lw, y);
                            let kh = self.cst(hw, y >> lw);
                            let e1 = self.bin(Op::Eq, n.a, kh);
                            let e2 = self.bin(Op::Eq, n.b, kl);
                            return self.bin(Op::And, e1, e2);
                        }
                        Op::Add => {
                            if let Some(z) = self.cval(n.b) {
                                let k = self.cst(w, y.wrapping_sub(z));
                                return self.bin(Op::Eq, n.a, k);
                            }
                        }
                        Op::Ite => {
                            if let (Some(x), Some(z)) = (self.cval(n.b), self.cval(n.c)) {
                                return match (x == y, z == y) {
                                    (true, true) => self.cst(1, 1),
                                    (true, false) => n.a,
                                    (false, true) => self.not(n.a),
                                    (false, false) => self.cst(1, 0),
                                };
                            }
                        }
                        _ => {}
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.cst(1, 0);
                }
                if cb == Some(0) {
                    return self.cst(1, 0);
                }
                if cb == Some(1) {
                    let z = self.cst(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if let Some(r) = self.cmp_zext(op, a, b, ca, cb) {
                    return r;
                }
            }
            Op::Ule => {
                if a == b || ca == Some(0) || cb == Some(m) {
                    return self.cst(1, 1);
                }
                if let Some(r) = self.cmp_zext(op, a, b, ca, cb) {
                    return r;
                }
            }
            Op::Slt | Op::Sle => {
                // Zero extended values are non-negative, so signed compares are unsigned
                let za = self.nonneg(a);
                let zb = self.nonneg(b);
                if za && zb {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if a == b {
                    return self.cst(1, (op == Op::Sle) as u128);
                }
            }
            Op::UDiv | Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = y.trailing_zeros();
                        if op == Op::UDiv {
                            let s = self.cst(w, k as u128);
                            return self.bin(Op::LShr, a, s);
                        }
                        let s = self.cst(w, y - 1);
                        return self.bin(Op::And, a, s);
                    }
                    // Narrow division of zero extended values
                    let n = self.nodes[a as usize];
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        if y >> iw != 0 {
                            return if op == Op::UDiv { self.cst(w, 0) } else { a };
                        }
                        let k = self.cst(iw, y);
                        let d = self.bin(op, n.a, k);
                        return self.zext(d, w);
                    }
                }
            }
            _ => {}
        }
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
        self.n2(op, rw, a, b)
    }

    fn nonneg(&self, t: T) -> bool {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::ZExt => true,
            Op::Const => n.k >> (n.w - 1) == 0,
            Op::Concat => self.cval(n.a).map_or(false, |v| v >> (self.w(n.a) - 1) == 0),
            _ => false,
        }
    }

    fn cmp_zext(&mut self, op: Op, a: T, b: T, ca: Option<u128>, cb: Option<u128>) -> Option<T> {
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        let width = |s: &Self, n: &Key| if n.op == Op::ZExt { Some(s.w(n.a)) } else { None };
        match (width(self, &na), width(self, &nb), ca, cb) {
            (Some(iw), _, _, Some(y)) => {
                if y >> iw != 0 {
                    return Some(self.cst(1, 1));
                }
                let k = self.cst(iw, y);
                Some(self.bin(op, na.a, k))
            }
            (_, Some(iw), Some(x), _) => {
                if x >> iw != 0 {
                    return Some(self.cst(1, 0));
                }
                let k = self.cst(iw, x);
                Some(self.bin(op, k, nb.a))
            }
            (Some(x), Some(y), _, _) => {
                let m = x.max(y);
                let l = self.zext(na.a, m);
                let r = self.zext(nb.a, m);
                Some(self.bin(op, l, r))
            }
            _ => None,
        }
    }

    /// `x | y` where the bits don't overlap is a concatenation.
    fn or_concat(&mut self, a: T, b: T, w: u32) -> Option<T> {
        for (hi, lo) in [(a, b), (b, a)] {
            let nh = self.nodes[hi as usize];
            let nl = self.nodes[lo as usize];
            if nh.op == Op::Concat && self.cval(nh.b) == Some(0) {
                let zw = self.w(nh.b);
                // The low value fits under the zeros
                if nl.op == Op::ZExt {
                    let iw = self.w(nl.a);
                    if iw <= zw {
                        let l = self.zext(nl.a, zw);
                        return Some(self.concat(nh.a, l));
                    }
                }
                if let Some(v) = self.cval(lo) {
                    if zw < 128 && v >> zw == 0 {
                        let l = self.cst(zw, v);
                        return Some(self.concat(nh.a, l));
                    }
                }
            }
        }
        let _ = w;
        None
    }

    pub fn extract(&mut self, a: T, hi: u32, lo: u32) -> T {
        let n = self.nodes[a as usize];
        let w = hi - lo + 1;
        if w == n.w as u32 {
            return a;
        }
        match n.op {
            Op::Const => return self.cst(w, n.k >> lo),
            Op::Extract => {
                let base = n.k as u32;
                return self.extract(n.a, hi + base, lo + base);
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= lw {
                    return self.extract(n.a, hi - lw, lo - lw);
                }
                let h = self.extract(n.a, hi - lw, 0);
                let l = self.extract(n.b, lw - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(w, 0);
                }
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                let e = self.extract(n.a, iw - 1, lo);
                return self.zext(e, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                if lo < iw {
                    let e = self.extract(n.a, iw - 1, lo);
                    return self.sext(e, w);
                }
            }
            Op::Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor if self.cval(n.b).is_some() => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, hi, lo);
                return self.not(x);
            }
            _ => {}
        }
        self.mk(Key { op: Op::Extract, w: w as u16, a, b: 0, c: 0, k: lo as u128 })
    }

    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (h, l) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        let w = h.w as u32 + l.w as u32;
        assert!(w <= 128, "bit-vectors are at most 128 bits");
        if h.op == Op::Const && l.op == Op::Const && w <= 128 {
            return self.cst(w, (h.k << l.w) | l.k);
        }
        if h.op == Op::Const && h.k == 0 {
            return self.zext(lo, w);
        }
        // Adjacent slices of the same value
        if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.k == l.k + l.w as u128 {
            return self.extract(h.a, (h.k as u32) + h.w as u32 - 1, l.k as u32);
        }
        // (x ++ y[..]) ++ y[..]
        if h.op == Op::Concat && l.op == Op::Extract {
            let hl = self.nodes[h.b as usize];
            if hl.op == Op::Extract && hl.a == l.a && hl.k == l.k + l.w as u128 {
                let e = self.extract(l.a, hl.k as u32 + hl.w as u32 - 1, l.k as u32);
                return self.concat(h.a, e);
            }
        }
        if h.op == Op::Concat && l.op == Op::Const {
            if let Some(_) = self.cval(h.b) {
                let e = self.concat(h.b, lo);
                if self.w(e) <= 128 {
                    return self.n2(Op::Concat, w, h.a, e);
                }
            }
        }
        // Sign and zero extension split by bytes
        if h.op == Op::ZExt {
            let c = self.concat(h.a, lo);
            return self.zext(c, w);
        }
        if h.op == Op::Extract && l.op == Op::Var {
            let _ = 0;
        }
        self.n2(Op::Concat, w, hi, lo)
    }

    pub fn zext(&mut self, a: T, w: u32) -> T {
        let n = self.nodes[a as usize];
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const => return self.cst(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(Key { op: Op::ZExt, w: w as u16, a, b: 0, c: 0, k: 0 })
    }

    pub fn sext(&mut self, a: T, w: u32) -> T {
        let n = self.nodes[a as usize];
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const => {
                let v = sext(n.k, n.w as u32) as u128;
                return self.cst(w, v);
            }
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(Key { op: Op::SExt, w: w as u16, a, b: 0, c: 0, k: 0 })
    }

    pub fn ite(&mut self, c: T, x: T, y: T) -> T {
        if let Some(v) = self.cval(c) {
            return if v == 1 { x } else { y };
        }
        if x == y {
            return x;
        }
        let w = self.w(x);
        if w == 1 {
            match (self.cval(x), self.cval(y)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, y),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, y);
                }
                (None, Some(0)) => return self.bin(Op::And, c, x),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, x);
                }
                _ => {}
            }
        }
        let n = self.nodes[c as usize];
        if n.op == Op::Not {
            return self.ite(n.a, y, x);
        }
        self.mk(Key { op: Op::Ite, w: w as u16, a: c, b: x, c: y, k: 0 })
    }

    /// Operators that aren't simplified beyond constants.
    pub fn raw2(&mut self, op: Op, rw: u32, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let w = self.w(a);
            if let Some(r) = fold_f(op, w, rw, x, y) {
                return self.cst(rw, r);
            }
            match op {
                Op::UMulOk => return self.cst(1, umul_ok(w, x, y) as u128),
                Op::SMulOk => return self.cst(1, smul_ok(w, x, y) as u128),
                _ => {}
            }
        }
        self.n2(op, rw, a, b)
    }

    pub fn raw1(&mut self, op: Op, rw: u32, a: T) -> T {
        if let Some(x) = self.cval(a) {
            if let Some(r) = fold_f(op, self.w(a), rw, x, 0) {
                return self.cst(rw, r);
            }
        }
        self.n2(op, rw, a, 0)
    }

    /// Evaluate under an assignment of the input bytes.
    pub fn eval(&self, t: T, env: &dyn Fn(u32) -> u8, memo: &mut HashMap<T, u128>) -> u128 {
        if let Some(v) = memo.get(&t) {
            return *v;
        }
        let n = self.nodes[t as usize];
        let v = match n.op {
            Op::Var => env(n.k as u32) as u128,
            Op::Ite => {
                if self.eval(n.a, env, memo) == 1 {
                    self.eval(n.b, env, memo)
                } else {
                    self.eval(n.c, env, memo)
                }
            }
            _ => {
                let k = arity(n.op);
                let x = if k > 0 { self.eval(n.a, env, memo) } else { 0 };
                let y = if k > 1 { self.eval(n.b, env, memo) } else { 0 };
                self.apply(&n, x, y)
            }
        };
        memo.insert(t, v);
        v
    }

    /// The value of a node other than a variable or an `Ite`, given those of its arguments.
    fn apply(&self, n: &Key, x: u128, y: u128) -> u128 {
        let w = n.w as u32;
        match n.op {
            Op::Const => n.k,
            Op::Not => !x & mask(w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lw >= 128 {
                    y
                } else {
                    (x << lw) | y
                }
            }
            Op::Extract => (x >> (n.k as u32)) & mask(w),
            Op::ZExt => x,
            Op::SExt => (sext(x, self.w(n.a)) as u128) & mask(w),
            Op::UMulOk => umul_ok(self.w(n.a), x, y) as u128,
            Op::SMulOk => smul_ok(self.w(n.a), x, y) as u128,
            _ => {
                let aw = self.w(n.a);
                match fold2(n.op, aw, x, y).or_else(|| fold_f(n.op, aw, w, x, y)) {
                    Some(v) => v,
                    // SMT-LIB's division by zero
                    None => match n.op {
                        Op::UDiv => mask(w),
                        _ => x,
                    },
                }
            }
        }
    }

    pub fn single_var(&self, t: T) -> Option<u32> {
        let s = &self.sup[t as usize];
        let mut r = None;
        for (i, x) in s.iter().enumerate() {
            if *x != 0 {
                if r.is_some() || x.count_ones() != 1 {
                    return None;
                }
                r = Some(i as u32 * 64 + x.trailing_zeros());
            }
        }
        r
    }

    /// The values of its byte for which a condition on a single byte holds.
    pub fn truth(&mut self, t: T) -> [u64; 4] {
        if let Some(b) = self.truths.get(&t) {
            return *b;
        }
        let tab = self.table(t).unwrap();
        let mut b = [0u64; 4];
        for v in 0..256 {
            if tab[v] == 1 {
                b[v / 64] |= 1 << (v % 64);
            }
        }
        self.truths.insert(t, b);
        b
    }

    /// The table of a condition on a single byte, if it was computed and the condition is large.
    pub fn big_truth(&self, t: T) -> Option<[u64; 4]> {
        let b = self.truths.get(&t)?;
        let mut seen = std::collections::HashSet::new();
        let mut todo = vec![t];
        while let Some(x) = todo.pop() {
            let n = self.nodes[x as usize];
            for (i, y) in [n.a, n.b, n.c].into_iter().enumerate() {
                if i < arity(n.op) && seen.insert(y) {
                    todo.push(y);
                }
            }
            if seen.len() > 10 {
                return Some(*b);
            }
        }
        None
    }

    /// All values of a term that depends on a single input byte.
    pub fn table(&mut self, t: T) -> Option<&[u128; 256]> {
        self.single_var(t)?;
        if !self.tables.contains_key(&t) {
            // Its subterms, arguments first, down to those whose tables are known
            let mut ids = vec![t];
            let mut at: HashMap<T, usize> = HashMap::new();
            at.insert(t, 0);
            let mut i = 0;
            while i < ids.len() {
                if !self.tables.contains_key(&ids[i]) {
                    let n = self.nodes[ids[i] as usize];
                    for y in [n.a, n.b, n.c].into_iter().take(arity(n.op)) {
                        if at.insert(y, 0).is_none() {
                            ids.push(y);
                        }
                    }
                }
                i += 1;
            }
            // Terms are numbered after their arguments
            ids.sort_unstable();
            for (i, x) in ids.iter().enumerate() {
                at.insert(*x, i);
            }
            let code: Vec<(Key, [usize; 3], Option<&[u128; 256]>)> = ids
                .iter()
                .map(|x| {
                    let n = self.nodes[*x as usize];
                    let known = self.tables.get(x).map(|b| &**b);
                    let mut c = [0; 3];
                    if known.is_none() {
                        for (k, y) in [n.a, n.b, n.c].into_iter().take(arity(n.op)).enumerate() {
                            c[k] = at[&y];
                        }
                    }
                    (n, c, known)
                })
                .collect();
            let mut tab = Box::new([0u128; 256]);
            let mut vals = vec![0u128; code.len()];
            for v in 0..256 {
                for (i, (n, c, known)) in code.iter().enumerate() {
                    vals[i] = match (known, n.op) {
                        (Some(k), _) => k[v],
                        (_, Op::Var) => v as u128,
                        (_, Op::Ite) => vals[if vals[c[0]] == 1 { c[1] } else { c[2] }],
                        _ => self.apply(n, vals[c[0]], vals[c[1]]),
                    };
                }
                tab[v] = *vals.last().unwrap();
            }
            self.tables.insert(t, tab);
        }
        self.tables.get(&t).map(|b| &**b)
    }
}

pub fn umul_ok(w: u32, a: u128, b: u128) -> bool {
    match a.checked_mul(b) {
        Some(v) => w >= 128 || v >> w == 0,
        None => false,
    }
}

pub fn smul_ok(w: u32, a: u128, b: u128) -> bool {
    match sext(a, w).checked_mul(sext(b, w)) {
        Some(v) => w >= 128 || sext(v as u128 & mask(w), w) == v,
        None => false,
    }
}

pub fn arity(op: Op) -> usize {
    match op {
        Op::Var | Op::Const => 0,
        Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::FIsNan | Op::FpExt | Op::FpTrunc
        | Op::SiToFp | Op::UiToFp | Op::FpToSi | Op::FpToUi | Op::FTrunc | Op::FFloor | Op::FCeil => 1,
        Op::Ite => 3,
        _ => 2,
    }
}
