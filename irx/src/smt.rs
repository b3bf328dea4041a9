//! The solver: translation of terms to Z3 and the queries.

use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, l: P, r: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_bvmul_no_overflow(c: P, a: P, b: P, signed: bool) -> P;
    fn Z3_mk_bvmul_no_underflow(c: P, a: P, b: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, t: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Unsat,
    Sat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub nanos: u64,
    pub max_nanos: u64,
}

pub struct Smt {
    ctx: P,
    solver: P,
    fpsolver: P,
    ast: Vec<P>,
    bools: Vec<P>,
    varc: Vec<P>,
    isfp: Vec<bool>,
    members: HashMap<T, P>,
    proved: std::collections::HashSet<u64>,
    cache: HashMap<Vec<T>, (Res, Rc<Vec<u8>>)>,
    pub stats: Stats,
    pub dump: Option<(String, usize)>,
}

impl Smt {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, None);
            let logic = CString::new("QF_BV").unwrap();
            let solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, logic.as_ptr()));
            Z3_solver_inc_ref(ctx, solver);
            let fpsolver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, fpsolver);
            let params = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, params);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, params, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, params);
            Z3_solver_set_params(ctx, fpsolver, params);
            Smt {
                ctx,
                solver,
                fpsolver,
                ast: Vec::new(),
                bools: Vec::new(),
                varc: Vec::new(),
                isfp: Vec::new(),
                members: HashMap::new(),
                proved: Default::default(),
                cache: HashMap::new(),
                stats: Stats::default(),
                dump: None,
            }
        }
    }

    fn fp(&mut self, ar: &Arena, t: T) -> P {
        let w = ar.w(t);
        let a = self.bv(ar, t);
        unsafe {
            let s = self.fsort(w);
            let r = Z3_mk_fpa_to_fp_bv(self.ctx, a, s);
            Z3_inc_ref(self.ctx, r);
            r
        }
    }

    unsafe fn fsort(&self, w: u32) -> P {
        let (e, s) = if w == 32 { (8, 24) } else { (11, 53) };
        let s = Z3_mk_fpa_sort(self.ctx, e, s);
        Z3_inc_ref(self.ctx, s);
        s
    }

    /// A condition as a boolean.
    fn b(&mut self, ar: &Arena, t: T) -> P {
        let i = t as usize;
        if self.bools.len() <= i {
            self.bools.resize(i + 1, std::ptr::null_mut());
        }
        if !self.bools[i].is_null() {
            return self.bools[i];
        }
        let n = ar.nodes[i];
        debug_assert_eq!(n.w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Not => {
                    let a = self.b(ar, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And | Op::Or => {
                    let x = [self.b(ar, n.a), self.b(ar, n.b)];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, x.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, x.as_ptr())
                    }
                }
                Op::Eq if ar.w(n.a) == 1 => {
                    let (x, y) = (self.b(ar, n.a), self.b(ar, n.b));
                    Z3_mk_eq(c, x, y)
                }
                Op::Xor => {
                    let (x, y) = (self.b(ar, n.a), self.b(ar, n.b));
                    let e = Z3_mk_eq(c, x, y);
                    Z3_inc_ref(c, e);
                    Z3_mk_not(c, e)
                }
                Op::Ite => {
                    let (x, y, z) = (self.b(ar, n.a), self.b(ar, n.b), self.b(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, x, y),
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                Op::UMulOk => {
                    let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    Z3_mk_bvmul_no_overflow(c, x, y, false)
                }
                Op::SMulOk => {
                    let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    let p = Z3_mk_bvmul_no_overflow(c, x, y, true);
                    Z3_inc_ref(c, p);
                    let q = Z3_mk_bvmul_no_underflow(c, x, y);
                    Z3_inc_ref(c, q);
                    Z3_mk_and(c, 2, [p, q].as_ptr())
                }
                Op::FEq | Op::FLt | Op::FLe => {
                    let (x, y) = (self.fp(ar, n.a), self.fp(ar, n.b));
                    match n.op {
                        Op::FEq => Z3_mk_fpa_eq(c, x, y),
                        Op::FLt => Z3_mk_fpa_lt(c, x, y),
                        _ => Z3_mk_fpa_leq(c, x, y),
                    }
                }
                Op::FIsNan => {
                    let x = self.fp(ar, n.a);
                    Z3_mk_fpa_is_nan(c, x)
                }
                _ => {
                    let x = self.bv(ar, t);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_inc_ref(c, s);
                    let one = Z3_mk_unsigned_int64(c, 1, s);
                    Z3_inc_ref(c, one);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bools[i] = r;
        r
    }

    fn bv(&mut self, ar: &Arena, t: T) -> P {
        let i = t as usize;
        if self.ast.len() <= i {
            self.ast.resize(i + 1, std::ptr::null_mut());
        }
        if !self.ast[i].is_null() {
            return self.ast[i];
        }
        let n = ar.nodes[i];
        let w = n.w as u32;
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Var => {
                    let s = Z3_mk_bv_sort(c, 8);
                    Z3_inc_ref(c, s);
                    let name = CString::new(format!("in{}", n.k)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, name.as_ptr()), s)
                }
                Op::Const => {
                    let s = Z3_mk_bv_sort(c, w);
                    Z3_inc_ref(c, s);
                    if n.k >> 64 == 0 {
                        Z3_mk_unsigned_int64(c, n.k as u64, s)
                    } else {
                        let d = CString::new(format!("{}", n.k)).unwrap();
                        Z3_mk_numeral(c, d.as_ptr(), s)
                    }
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::UMulOk | Op::SMulOk
                | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan => {
                    let b = self.b(ar, t);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_inc_ref(c, s);
                    let one = Z3_mk_unsigned_int64(c, 1, s);
                    Z3_inc_ref(c, one);
                    let zero = Z3_mk_unsigned_int64(c, 0, s);
                    Z3_inc_ref(c, zero);
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::Not => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::Ite => {
                    let (x, y, z) = (self.b(ar, n.a), self.bv(ar, n.b), self.bv(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Extract => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a)
                }
                Op::ZExt => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_zero_ext(c, w - ar.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_sign_ext(c, w - ar.w(n.a), a)
                }
                Op::FpExt | Op::FpTrunc => {
                    let a = self.fp(ar, n.a);
                    let s = self.fsort(w);
                    let rm = Z3_mk_fpa_rne(c);
                    Z3_inc_ref(c, rm);
                    let f = Z3_mk_fpa_to_fp_float(c, rm, a, s);
                    Z3_inc_ref(c, f);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::SiToFp | Op::UiToFp => {
                    let a = self.bv(ar, n.a);
                    let s = self.fsort(w);
                    let rm = Z3_mk_fpa_rne(c);
                    Z3_inc_ref(c, rm);
                    let f = if n.op == Op::SiToFp {
                        Z3_mk_fpa_to_fp_signed(c, rm, a, s)
                    } else {
                        Z3_mk_fpa_to_fp_unsigned(c, rm, a, s)
                    };
                    Z3_inc_ref(c, f);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::FpToSi | Op::FpToUi => {
                    let a = self.fp(ar, n.a);
                    let rm = Z3_mk_fpa_rtz(c);
                    Z3_inc_ref(c, rm);
                    if n.op == Op::FpToSi {
                        Z3_mk_fpa_to_sbv(c, rm, a, w)
                    } else {
                        Z3_mk_fpa_to_ubv(c, rm, a, w)
                    }
                }
                Op::FTrunc | Op::FFloor | Op::FCeil => {
                    let x = self.fp(ar, n.a);
                    let rm = match n.op {
                        Op::FTrunc => Z3_mk_fpa_rtz(c),
                        Op::FFloor => Z3_mk_fpa_rtn(c),
                        _ => Z3_mk_fpa_rtp(c),
                    };
                    Z3_inc_ref(c, rm);
                    let f = Z3_mk_fpa_round_to_integral(c, rm, x);
                    Z3_inc_ref(c, f);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (x, y) = (self.fp(ar, n.a), self.fp(ar, n.b));
                    let rm = Z3_mk_fpa_rne(c);
                    Z3_inc_ref(c, rm);
                    let f = match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, x, y),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, x, y),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, x, y),
                        _ => Z3_mk_fpa_div(c, rm, x, y),
                    };
                    Z3_inc_ref(c, f);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                _ => {
                    let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    match n.op {
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.ast[i] = r;
        r
    }

    fn has_fp(&mut self, ar: &Arena, t: T) -> bool {
        // Terms are numbered after their arguments
        while self.isfp.len() <= t as usize {
            let n = ar.nodes[self.isfp.len()];
            let mut f = matches!(
                n.op,
                Op::FEq | Op::FLt | Op::FLe | Op::FIsNan | Op::FpExt | Op::FpTrunc | Op::SiToFp
                    | Op::UiToFp | Op::FpToSi | Op::FpToUi | Op::FAdd | Op::FSub | Op::FMul
                    | Op::FDiv | Op::FTrunc | Op::FFloor | Op::FCeil
            );
            for (i, x) in [n.a, n.b, n.c].into_iter().enumerate() {
                if i < arity(n.op) {
                    f |= self.isfp[x as usize];
                }
            }
            self.isfp.push(f);
        }
        self.isfp[t as usize]
    }

    /// A large condition on a single byte, handed to the solver as the set of values it admits.
    fn member(&mut self, ar: &Arena, t: T, b: [u64; 4]) -> P {
        if let Some(p) = self.members.get(&t) {
            return *p;
        }
        let v = ar.single_var(t).unwrap();
        let c = self.ctx;
        let r = unsafe {
            let s = Z3_mk_bv_sort(c, 8);
            Z3_inc_ref(c, s);
            let name = CString::new(format!("in{v}")).unwrap();
            let x = Z3_mk_const(c, Z3_mk_string_symbol(c, name.as_ptr()), s);
            Z3_inc_ref(c, x);
            let has = |i: usize| b[i / 64] >> (i % 64) & 1 == 1;
            let mut parts = Vec::new();
            let mut i = 0;
            while i < 256 {
                if !has(i) {
                    i += 1;
                    continue;
                }
                let lo = i;
                while i < 256 && has(i) {
                    i += 1;
                }
                let l = Z3_mk_unsigned_int64(c, lo as u64, s);
                Z3_inc_ref(c, l);
                let h = Z3_mk_unsigned_int64(c, i as u64 - 1, s);
                Z3_inc_ref(c, h);
                let a = Z3_mk_bvule(c, l, x);
                Z3_inc_ref(c, a);
                let d = Z3_mk_bvule(c, x, h);
                Z3_inc_ref(c, d);
                let both = Z3_mk_and(c, 2, [a, d].as_ptr());
                Z3_inc_ref(c, both);
                parts.push(both);
            }
            Z3_mk_or(c, parts.len() as c_uint, parts.as_ptr())
        };
        unsafe { Z3_inc_ref(c, r) };
        self.members.insert(t, r);
        r
    }

    /// Are the constraints satisfiable, and by which assignment?
    pub fn check(&mut self, ar: &Arena, cs: &mut Vec<T>, nvars: u32) -> (Res, Rc<Vec<u8>>) {
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(cs) {
            self.stats.cached += 1;
            return r.clone();
        }
        let (r, m) = self.solve(ar, cs, Some(nvars));
        let r = (r, Rc::new(m));
        self.cache.insert(cs.clone(), r.clone());
        r
    }

    /// Can any of the pairs differ under the constraints?
    pub fn differ(&mut self, ar: &Arena, mut cs: Vec<T>, pairs: &[(T, T)]) -> Res {
        use std::hash::{Hash, Hasher};
        cs.sort_unstable();
        cs.dedup();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (&cs, pairs).hash(&mut h);
        let h = h.finish();
        if self.proved.contains(&h) {
            self.stats.cached += 1;
            return Res::Unsat;
        }
        let t0 = std::time::Instant::now();
        let mut bs: Vec<P> = cs.iter().map(|t| self.b(ar, *t)).collect();
        let c = self.ctx;
        let r = unsafe {
            let mut ne = Vec::new();
            for (a, b) in pairs {
                let (x, y) = (self.bv(ar, *a), self.bv(ar, *b));
                let e = Z3_mk_eq(c, x, y);
                Z3_inc_ref(c, e);
                let n = Z3_mk_not(c, e);
                Z3_inc_ref(c, n);
                ne.push(n);
            }
            let any = Z3_mk_or(c, ne.len() as c_uint, ne.as_ptr());
            Z3_inc_ref(c, any);
            bs.push(any);
            let s = self.solver;
            Z3_solver_push(c, s);
            for b in bs {
                Z3_solver_assert(c, s, b);
            }
            let r = Z3_solver_check(c, s);
            Z3_solver_pop(c, s, 1);
            r
        };
        let dt = t0.elapsed().as_nanos() as u64;
        self.stats.queries += 1;
        self.stats.nanos += dt;
        self.stats.max_nanos = self.stats.max_nanos.max(dt);
        match r {
            1 => {
                self.stats.sat += 1;
                Res::Sat
            }
            -1 => {
                self.stats.unsat += 1;
                self.proved.insert(h);
                Res::Unsat
            }
            _ => {
                self.stats.unknown += 1;
                Res::Unknown
            }
        }
    }

    fn solve(&mut self, ar: &Arena, cs: &[T], vars: Option<u32>) -> (Res, Vec<u8>) {
        let t0 = std::time::Instant::now();
        let fp = cs.iter().any(|t| self.has_fp(ar, *t));
        let s = if fp { self.fpsolver } else { self.solver };
        let bs: Vec<P> = cs
            .iter()
            .map(|t| match ar.big_truth(*t) {
                Some(b) => self.member(ar, *t, b),
                None => self.b(ar, *t),
            })
            .collect();
        let mut out = Vec::new();
        let r = unsafe {
            Z3_solver_push(self.ctx, s);
            for b in bs {
                Z3_solver_assert(self.ctx, s, b);
            }
            let r = Z3_solver_check(self.ctx, s);
            if let Some((dir, left)) = &mut self.dump {
                let id = self.stats.queries;
                if *left > 0 && (id.is_power_of_two() || id % 997 == 0) {
                    *left -= 1;
                    let txt = CStr::from_ptr(Z3_solver_to_string(self.ctx, s));
                    let th = std::thread::current().name().unwrap_or("x").to_owned();
                    let want = match r {
                        1 => "sat",
                        -1 => "unsat",
                        _ => "unknown",
                    };
                    let _ = std::fs::write(
                        format!("{dir}/q-{th}-{id}.smt2"),
                        format!("; expect: {want}\n(set-logic ALL)\n{}\n(check-sat)\n", txt.to_string_lossy()),
                    );
                }
            }
            if Z3_get_error_code(self.ctx) != 0 {
                panic!("z3 error {}", Z3_get_error_code(self.ctx));
            }
            if r == 1 {
                if let Some(n) = vars {
                    let m = Z3_solver_get_model(self.ctx, s);
                    Z3_model_inc_ref(self.ctx, m);
                    for i in 0..n {
                        while self.varc.len() <= i as usize {
                            let name = CString::new(format!("in{}", self.varc.len())).unwrap();
                            let so = Z3_mk_bv_sort(self.ctx, 8);
                            Z3_inc_ref(self.ctx, so);
                            let v = Z3_mk_const(
                                self.ctx,
                                Z3_mk_string_symbol(self.ctx, name.as_ptr()),
                                so,
                            );
                            Z3_inc_ref(self.ctx, v);
                            self.varc.push(v);
                        }
                        let v = self.varc[i as usize];
                        let mut e: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, v, true, &mut e);
                        Z3_inc_ref(self.ctx, e);
                        let mut u = 0u64;
                        Z3_get_numeral_uint64(self.ctx, e, &mut u);
                        out.push(u as u8);
                    }
                    Z3_model_dec_ref(self.ctx, m);
                }
            }
            Z3_solver_pop(self.ctx, s, 1);
            r
        };
        let dt = t0.elapsed().as_nanos() as u64;
        self.stats.queries += 1;
        self.stats.nanos += dt;
        self.stats.max_nanos = self.stats.max_nanos.max(dt);
        let r = match r {
            1 => {
                self.stats.sat += 1;
                Res::Sat
            }
            -1 => {
                self.stats.unsat += 1;
                Res::Unsat
            }
            _ => {
                self.stats.unknown += 1;
                Res::Unknown
            }
        };
        (r, out)
    }

    /// An assignment of the first `n` input bytes that satisfies the constraints.
    pub fn model(&mut self, ar: &Arena, cs: &[T], n: u32) -> (Res, Vec<u8>) {
        self.solve(ar, cs, Some(n))
    }
}

impl Drop for Smt {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.ctx) }
    }
}
