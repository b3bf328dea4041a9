//! Path-wise symbolic execution of the IR.
//!
//! Pointers and the shape of memory are concrete, bytes may be terms. A path is identified by its
//! decisions at conditions that depend on the inputs, and is re-executed from the start.

use crate::ir::*;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(T),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Stack,
    Heap,
    Global,
    Const,
}

pub struct Obj {
    pub data: Vec<u8>,
    /// Empty, or a term (plus one) for each byte that isn't concrete.
    pub sym: Vec<u32>,
    pub alive: bool,
    pub kind: Kind,
}

#[derive(Debug, Clone)]
pub enum Stop {
    /// The entry point returned.
    Done,
    /// An assumption doesn't hold.
    Assume,
    /// The property doesn't hold, or the code panicked or has undefined behaviour.
    Bad(String),
    /// Nothing can be said.
    Unknown(String),
}

type R<X> = Result<X, Stop>;

pub struct Limits {
    pub max_steps: u64,
    pub max_depth: usize,
}

struct Frame {
    code: Arc<Code>,
    func: usize,
    regs: Vec<Val>,
    block: u32,
    pc: usize,
    allocas: Vec<u64>,
    ret_dst: u32,
    ret_then: u32,
}

pub struct PathResult {
    pub stop: Stop,
    pub trace: Vec<u128>,
    pub alternatives: Vec<(Vec<u128>, Vec<u8>)>,
    pub steps: u64,
    pub stack: Vec<String>,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    pub smt: Smt,
    pub lim: Limits,
    objs: Vec<Obj>,
    base: u64,
    globals: Vec<Option<Box<Obj>>>,
    dirty: Vec<usize>,
    pub pc: Vec<T>,
    prefix: Vec<u128>,
    trace: Vec<u128>,
    alts: Vec<(Vec<u128>, Vec<u8>)>,
    pub nvars: u32,
    frames: Vec<Frame>,
    steps: u64,
    pub obs: Vec<Val>,
    pub reached: BTreeSet<u32>,
    pub path_reached: BTreeSet<u32>,
    pub called: Vec<bool>,
    pub dbg: Vec<bool>,
    pub forks: u64,
    pub heap_live: usize,
    pub check_leaks: bool,
    enum_cache: HashMap<(T, Vec<T>), Vec<(u128, Vec<u8>)>>,
    byte_cache: HashMap<(T, [u64; 4]), Option<u8>>,
    /// Inputs that follow the path so far.
    pub model: Vec<u8>,
    model_changed: bool,
    memo: HashMap<T, u128>,
    /// Fixed inputs: everything is concrete.
    pub concrete: Option<Vec<u8>>,
    free_regs: Vec<Vec<Val>>,
    pub pc_sup: Support,
}

fn bad<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Bad(s.into()))
}

fn unk<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Unknown(s.into()))
}

fn cv_val(c: &Cv) -> Val {
    match c {
        Cv::I(v) => Val::C(*v),
        Cv::A(vs) => Val::A(Rc::new(vs.iter().map(cv_val).collect())),
    }
}

fn overlap(a: &Support, b: &Support) -> bool {
    (a[0] & b[0]) | (a[1] & b[1]) | (a[2] & b[2]) | (a[3] & b[3]) != 0
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, timeout_ms: u32, lim: Limits) -> Self {
        let ng = m.globals.len();
        Exec {
            m,
            ar: Arena::new(),
            smt: Smt::new(timeout_ms),
            lim,
            objs: Vec::new(),
            base: GLOBAL0 + ng as u64 + 16,
            globals: (0..ng).map(|_| None).collect(),
            dirty: Vec::new(),
            pc: Vec::new(),
            prefix: Vec::new(),
            trace: Vec::new(),
            alts: Vec::new(),
            nvars: 0,
            frames: Vec::new(),
            steps: 0,
            obs: Vec::new(),
            reached: BTreeSet::new(),
            path_reached: BTreeSet::new(),
            called: vec![false; m.funcs.len()],
            dbg: Vec::new(),
            forks: 0,
            heap_live: 0,
            check_leaks: false,
            enum_cache: HashMap::new(),
            byte_cache: HashMap::new(),
            model: Vec::new(),
            model_changed: false,
            memo: HashMap::new(),
            concrete: None,
            free_regs: Vec::new(),
            pc_sup: [0; 4],
        }
    }

    /// Forget terms and cached queries.
    pub fn reset_terms(&mut self, timeout_ms: u32) {
        let st = std::mem::take(&mut self.smt.stats);
        let dump = self.smt.dump.take();
        self.ar = Arena::new();
        self.smt = Smt::new(timeout_ms);
        self.smt.stats = st;
        self.smt.dump = dump;
        self.enum_cache.clear();
        self.byte_cache.clear();
    }

    pub fn run(&mut self, entry: usize, prefix: Vec<u128>, model: Vec<u8>) -> PathResult {
        self.model = model;
        self.model_changed = true;
        self.objs.clear();
        for g in self.dirty.drain(..) {
            self.globals[g] = None;
        }
        self.pc.clear();
        self.trace.clear();
        self.alts.clear();
        self.prefix = prefix;
        self.nvars = 0;
        self.frames.clear();
        self.steps = 0;
        self.obs.clear();
        self.path_reached.clear();
        self.heap_live = 0;

        let stop = match self.go(entry) {
            Ok(()) => Stop::Done,
            Err(s) => s,
        };
        let stop = match stop {
            Stop::Done if self.check_leaks && self.heap_live > 0 => {
                Stop::Bad(format!("{} heap allocations leaked", self.heap_live))
            }
            s => s,
        };
        if let Stop::Done = stop {
            self.reached.extend(self.path_reached.iter().copied());
        }
        let stack = if matches!(stop, Stop::Bad(_) | Stop::Unknown(_)) {
            self.frames.iter().rev().take(24).map(|f| self.m.funcs[f.func].name.clone()).collect()
        } else {
            Vec::new()
        };
        PathResult {
            stop,
            trace: std::mem::take(&mut self.trace),
            alternatives: std::mem::take(&mut self.alts),
            steps: self.steps,
            stack,
        }
    }

    // ---- terms ----

    fn term(&mut self, v: &Val, w: u32) -> T {
        match v {
            Val::C(c) => self.ar.cst(w, *c),
            Val::S(t) => *t,
            Val::A(_) => panic!("aggregate as a term"),
        }
    }

    fn val(&self, t: T) -> Val {
        match self.ar.cval(t) {
            Some(c) => Val::C(c),
            None => Val::S(t),
        }
    }

    fn op2(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if let Some(r) = fold2(op, w, *x, *y) {
                return Val::C(r);
            }
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let t = self.ar.bin(op, x, y);
        self.val(t)
    }

    fn not1(&mut self, a: &Val) -> Val {
        match a {
            Val::C(c) => Val::C(1 - (c & 1)),
            Val::S(t) => {
                let t = self.ar.not(*t);
                self.val(t)
            }
            _ => panic!(),
        }
    }

    fn ite(&mut self, w: u32, c: &Val, x: &Val, y: &Val) -> Val {
        match c {
            Val::C(1) => x.clone(),
            Val::C(_) => y.clone(),
            Val::S(c) => {
                let (a, b) = (self.term(x, w), self.term(y, w));
                let t = self.ar.ite(*c, a, b);
                self.val(t)
            }
            _ => panic!(),
        }
    }

    // ---- the solver ----

    /// The constraints that share inputs with `sup`, transitively, and all of their inputs.
    fn relevant(&self, sup: Support) -> (Vec<T>, Support) {
        let mut s = sup;
        let mut used = vec![false; self.pc.len()];
        let mut out = Vec::new();
        loop {
            let mut more = false;
            for (i, t) in self.pc.iter().enumerate() {
                if !used[i] && overlap(&s, &self.ar.sup[*t as usize]) {
                    used[i] = true;
                    out.push(*t);
                    let o = self.ar.sup[*t as usize];
                    for j in 0..4 {
                        if o[j] & !s[j] != 0 {
                            more = true;
                        }
                        s[j] |= o[j];
                    }
                }
            }
            if !more {
                return (out, s);
            }
        }
    }

    /// Whether a condition holds for the inputs that the path currently stands for.
    fn holds(&mut self, c: T) -> bool {
        self.eval_model(c) == 1
    }

    fn eval_model(&mut self, t: T) -> u128 {
        if self.model_changed {
            self.memo.clear();
            self.model_changed = false;
        }
        let m = &self.model;
        self.ar.eval(t, &|i| *m.get(i as usize).unwrap_or(&0), &mut self.memo)
    }

    fn set_model(&mut self, m: Vec<u8>) {
        self.model = m;
        self.model_changed = true;
    }

    /// Inputs that follow this path and satisfy the condition.
    fn query(&mut self, c: T) -> R<Option<Vec<u8>>> {
        if let Some(v) = self.ar.cval(c) {
            return Ok(if v == 1 { Some(self.model.clone()) } else { None });
        }
        let (mut cs, sup) = self.relevant(self.ar.sup[c as usize]);
        // Constraints on a single byte: equal sets of allowed values share the solver's answer
        let mut key = None;
        if let Some(v) = self.ar.single_var(c) {
            if cs.iter().all(|t| self.ar.single_var(*t) == Some(v)) {
                let mut d = [!0u64; 4];
                for t in &cs {
                    let b = self.ar.truth(*t);
                    for j in 0..4 {
                        d[j] &= b[j];
                    }
                }
                if let Some(r) = self.byte_cache.get(&(c, d)) {
                    self.smt.stats.cached += 1;
                    return Ok(match r {
                        Some(x) => {
                            let mut m = self.model.clone();
                            m[v as usize] = *x;
                            Some(m)
                        }
                        None => None,
                    });
                }
                self.ar.truth(c);
                key = Some((c, d, v));
            }
        }
        cs.push(c);
        let (r, m) = self.smt.check(&self.ar, &mut cs, self.nvars);
        let r = match r {
            Res::Sat => {
                let mut o = self.model.clone();
                for i in 0..o.len() {
                    if sup[i / 64] & (1 << (i % 64)) != 0 {
                        o[i] = m[i];
                    }
                }
                Some(o)
            }
            Res::Unsat => None,
            Res::Unknown => return unk("the solver gave up on a branch condition"),
        };
        if let Some((c, d, v)) = key {
            self.byte_cache.insert((c, d), r.as_ref().map(|m| m[v as usize]));
        }
        Ok(r)
    }

    fn assume(&mut self, c: T) {
        // Conjunctions are split so that independent parts can be sliced
        let n = self.ar.nodes[c as usize];
        if n.op == Op::And {
            self.assume(n.a);
            self.assume(n.b);
            return;
        }
        if self.ar.cval(c) == Some(1) {
            return;
        }
        if !self.pc.contains(&c) {
            self.pc.push(c);
        }
    }

    fn replay(&mut self) -> Option<u128> {
        let i = self.trace.len();
        if i < self.prefix.len() {
            let d = self.prefix[i];
            self.trace.push(d);
            Some(d)
        } else {
            None
        }
    }

    fn alternative(&mut self, d: u128, model: Vec<u8>) {
        let mut p = self.trace.clone();
        p.push(d);
        self.alts.push((p, model));
        self.forks += 1;
    }

    /// Decide a condition, forking if it may go either way.
    fn branch(&mut self, v: &Val) -> R<bool> {
        let c = match v {
            Val::C(c) => return Ok(c & 1 == 1),
            Val::S(t) => *t,
            _ => panic!(),
        };
        let n = self.ar.not(c);
        if let Some(d) = self.replay() {
            let b = d & 1 == 1;
            if d & 2 == 0 {
                self.assume(if b { c } else { n });
            }
            return Ok(b);
        }
        let b = self.holds(c);
        let (this, other) = if b { (c, n) } else { (n, c) };
        if let Some(m) = self.query(other)? {
            self.alternative(!b as u128, m);
            self.trace.push(b as u128);
            self.assume(this);
        } else {
            self.trace.push(2 | b as u128);
        }
        Ok(b)
    }

    /// All values a term can have on this path.
    fn values(&mut self, t: T, limit: usize) -> R<Vec<(u128, Vec<u8>)>> {
        let mut cs = self.relevant(self.ar.sup[t as usize]).0;
        cs.sort_unstable();
        cs.dedup();
        if let Some(v) = self.enum_cache.get(&(t, cs.clone())) {
            return Ok(v.clone());
        }
        let key = (t, cs.clone());
        let w = self.ar.w(t);
        let mut out: Vec<(u128, Vec<u8>)> = Vec::new();
        if self.ar.single_var(t).is_some() {
            let mut vs: Vec<u128> = self.ar.table(t).unwrap().to_vec();
            vs.sort_unstable();
            vs.dedup();
            for v in vs {
                let k = self.ar.cst(w, v);
                let e = self.ar.bin(Op::Eq, t, k);
                if let Some(model) = self.query(e)? {
                    out.push((v, model));
                }
            }
            self.enum_cache.insert(key, out.clone());
            return Ok(out);
        }
        loop {
            let model = match self.smt.model(&self.ar, &cs, self.nvars) {
                (Res::Sat, m) => m,
                (Res::Unsat, _) => break,
                _ => return unk("the solver gave up on the values of an address or a length"),
            };
            let mut memo = HashMap::new();
            let v = self.ar.eval(t, &|i| model[i as usize], &mut memo);
            out.push((v, model));
            if out.len() > limit {
                return unk("too many values for an address or a length");
            }
            let k = self.ar.cst(w, v);
            let e = self.ar.bin(Op::Eq, t, k);
            let ne = self.ar.not(e);
            cs.push(ne);
        }
        out.sort_unstable();
        self.enum_cache.insert(key, out.clone());
        Ok(out)
    }

    /// Fork on the values of a term.
    fn concretize(&mut self, v: &Val, w: u32) -> R<u128> {
        let t = match v {
            Val::C(c) => return Ok(*c),
            Val::S(t) => *t,
            _ => panic!(),
        };
        let d = match self.replay() {
            Some(d) => d,
            None => {
                let vs = self.values(t, 1024)?;
                if vs.is_empty() {
                    return unk("no value for a feasible path");
                }
                let sup = self.relevant(self.ar.sup[t as usize]).1;
                let now = self.eval_model(t);
                for (v, m) in vs.iter().rev() {
                    if *v == now {
                        continue;
                    }
                    let mut o = self.model.clone();
                    for i in 0..o.len().min(m.len()) {
                        if sup[i / 64] & (1 << (i % 64)) != 0 {
                            o[i] = m[i];
                        }
                    }
                    self.alternative(*v, o);
                }
                if !vs.iter().any(|(v, _)| *v == now) {
                    return unk("inconsistent values");
                }
                self.trace.push(now);
                now
            }
        };
        let k = self.ar.cst(w, d);
        let e = self.ar.bin(Op::Eq, t, k);
        self.assume(e);
        Ok(d)
    }

    // ---- memory ----

    fn alloc(&mut self, size: u64, kind: Kind) -> u64 {
        let id = self.objs.len() as u64 + self.base;
        let fill = if kind == Kind::Heap || kind == Kind::Stack { 0xAA } else { 0 };
        self.objs.push(Obj { data: vec![fill; size as usize], sym: Vec::new(), alive: true, kind });
        if kind == Kind::Heap {
            self.heap_live += 1;
        }
        id << SHIFT
    }

    fn free(&mut self, addr: u64) -> R<()> {
        let id = addr >> SHIFT;
        if id < self.base || (id - self.base) as usize >= self.objs.len() {
            return bad(format!("free of an invalid pointer {addr:#x}"));
        }
        let o = &mut self.objs[(id - self.base) as usize];
        if !o.alive {
            return bad("double free");
        }
        if o.kind != Kind::Heap || addr & 0xFFFF_FFFF != 0 {
            return bad("free of a pointer that wasn't allocated");
        }
        o.alive = false;
        o.data = Vec::new();
        o.sym = Vec::new();
        self.heap_live -= 1;
        Ok(())
    }

    fn obj(&mut self, addr: u64, n: u64, write: bool) -> R<(&mut Obj, usize)> {
        let id = addr >> SHIFT;
        let off = addr & 0xFFFF_FFFF;
        if id < self.base {
            if id < GLOBAL0 || (id - GLOBAL0) as usize >= self.globals.len() {
                return bad(format!("access through an invalid pointer {addr:#x}"));
            }
            let g = (id - GLOBAL0) as usize;
            let mg = &self.m.globals[g];
            if write && mg.constant {
                return bad(format!("write to a constant @{}", mg.name));
            }
            if off + n > mg.size {
                return bad(format!("out of bounds access to @{} (offset {off}, {n} bytes of {})", mg.name, mg.size));
            }
            if self.globals[g].is_none() {
                self.globals[g] = Some(Box::new(Obj {
                    data: mg.init.clone(),
                    sym: Vec::new(),
                    alive: true,
                    kind: if mg.constant { Kind::Const } else { Kind::Global },
                }));
                if !mg.constant {
                    self.dirty.push(g);
                }
            }
            return Ok((self.globals[g].as_mut().unwrap(), off as usize));
        }
        let i = (id - self.base) as usize;
        if i >= self.objs.len() {
            return bad(format!("access through an invalid pointer {addr:#x}"));
        }
        let o = &mut self.objs[i];
        if !o.alive {
            return bad(if o.kind == Kind::Heap { "use after free" } else { "use of a dead stack slot" });
        }
        if off + n > o.data.len() as u64 {
            return bad(format!(
                "out of bounds access ({:?} object of {} bytes, offset {off}, {n} bytes)",
                o.kind,
                o.data.len()
            ));
        }
        Ok((o, off as usize))
    }

    fn load_int(&mut self, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let (o, off) = self.obj(addr, n as u64, false)?;
        let mut any = false;
        if !o.sym.is_empty() {
            any = o.sym[off..off + n].iter().any(|s| *s != 0);
        }
        if !any {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(Val::C(u128::from_le_bytes(b) & mask(w)));
        }
        let bytes: Vec<(u32, u8)> = (0..n).map(|i| (o.sym[off + i], o.data[off + i])).collect();
        let mut r: Option<T> = None;
        for (s, d) in bytes.into_iter().rev() {
            let b = if s != 0 { s - 1 } else { self.ar.cst(8, d as u128) };
            r = Some(match r {
                None => b,
                Some(h) => self.ar.concat(h, b),
            });
        }
        let mut t = r.unwrap();
        if w % 8 != 0 {
            t = self.ar.extract(t, w - 1, 0);
        }
        Ok(self.val(t))
    }

    fn store_int(&mut self, addr: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        match v {
            Val::C(c) => {
                let (o, off) = self.obj(addr, n as u64, true)?;
                o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(0);
                }
            }
            Val::S(t) => {
                let mut t = *t;
                if w % 8 != 0 {
                    t = self.ar.zext(t, n as u32 * 8);
                }
                let bytes: Vec<T> =
                    (0..n as u32).map(|i| self.ar.extract(t, i * 8 + 7, i * 8)).collect();
                let cs: Vec<Option<u128>> = bytes.iter().map(|b| self.ar.cval(*b)).collect();
                let (o, off) = self.obj(addr, n as u64, true)?;
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for i in 0..n {
                    match cs[i] {
                        Some(c) => {
                            o.data[off + i] = c as u8;
                            o.sym[off + i] = 0;
                        }
                        None => o.sym[off + i] = bytes[i] + 1,
                    }
                }
            }
            Val::A(_) => panic!(),
        }
        Ok(())
    }

    fn load(&mut self, t: &Ty, addr: u64) -> R<Val> {
        match t {
            Ty::Int(w) => self.load_int(addr, *w),
            Ty::Ptr | Ty::F64 => self.load_int(addr, 64),
            Ty::F32 => self.load_int(addr, 32),
            Ty::Vec(n, e) if e.bits() % 8 != 0 => {
                let w = n * e.bits();
                let v = self.load_int(addr, w)?;
                self.split(&v, *n, e.bits())
            }
            _ if t.is_agg() => {
                let mut vs = Vec::with_capacity(t.count());
                for i in 0..t.count() {
                    vs.push(self.load(&t.elem(i), addr + t.offset(i))?);
                }
                Ok(Val::A(Rc::new(vs)))
            }
            _ => unk("load of an unsupported type"),
        }
    }

    fn store(&mut self, t: &Ty, addr: u64, v: &Val) -> R<()> {
        match t {
            Ty::Int(w) => self.store_int(addr, *w, v),
            Ty::Ptr | Ty::F64 => self.store_int(addr, 64, v),
            Ty::F32 => self.store_int(addr, 32, v),
            Ty::Vec(n, e) if e.bits() % 8 != 0 => {
                let x = self.join(v, e.bits());
                self.store_int(addr, n * e.bits(), &x)
            }
            _ if t.is_agg() => {
                let Val::A(vs) = v else { return unk("aggregate store") };
                for (i, x) in vs.clone().iter().enumerate() {
                    self.store(&t.elem(i), addr + t.offset(i), x)?;
                }
                Ok(())
            }
            _ => unk("store of an unsupported type"),
        }
    }

    fn split(&mut self, v: &Val, n: u32, w: u32) -> R<Val> {
        let mut out = Vec::new();
        for i in 0..n {
            out.push(match v {
                Val::C(c) => Val::C((c >> (i * w)) & mask(w)),
                Val::S(t) => {
                    let e = self.ar.extract(*t, i * w + w - 1, i * w);
                    self.val(e)
                }
                _ => return unk("split"),
            });
        }
        Ok(Val::A(Rc::new(out)))
    }

    fn join(&mut self, v: &Val, w: u32) -> Val {
        let Val::A(vs) = v else { return v.clone() };
        if vs.iter().all(|x| matches!(x, Val::C(_))) && vs.len() as u32 * w <= 128 {
            let mut r = 0;
            for (i, x) in vs.iter().enumerate() {
                if let Val::C(c) = x {
                    r |= c << (i as u32 * w);
                }
            }
            return Val::C(r);
        }
        let mut r: Option<T> = None;
        for x in vs.iter().rev() {
            let b = self.term(x, w);
            r = Some(match r {
                None => b,
                Some(h) => self.ar.concat(h, b),
            });
        }
        self.val(r.unwrap())
    }

    /// Load through an address that depends on the inputs.
    fn load_sym(&mut self, t: &Ty, addr: T) -> R<Val> {
        let n = t.store_size();
        if t.is_agg() || n > 16 {
            let a = self.concretize(&Val::S(addr), 64)?;
            return self.load(t, a as u64);
        }
        self.load_sym_at(t, addr, 4)
    }

    fn load_sym_at(&mut self, t: &Ty, addr: T, tries: u32) -> R<Val> {
        let n = t.store_size();
        // The object
        let id = match self.replay() {
            Some(d) => d as u64,
            None => {
                let v = self.eval_model(addr) as u64;
                self.trace.push((v >> SHIFT) as u128);
                v >> SHIFT
            }
        };
        let obase = id << SHIFT;
        let (o, _) = match self.obj(obase, 0, false) {
            Ok(x) => x,
            Err(_) => {
                let a = self.concretize(&Val::S(addr), 64)?;
                return self.load(t, a as u64);
            }
        };
        let size = o.data.len() as u64;
        if size < n {
            return bad("out of bounds access");
        }
        let kb = self.ar.cst(64, obase as u128);
        let offt = self.ar.bin(Op::Sub, addr, kb);
        let lim = self.ar.cst(64, (size - n) as u128);
        let inb = self.ar.bin(Op::Ule, offt, lim);
        let v = self.val(inb);
        if !self.branch(&v)? {
            if tries > 0 {
                return self.load_sym_at(t, addr, tries - 1);
            }
            let a = self.concretize(&Val::S(addr), 64)?;
            return self.load(t, a as u64);
        }
        let mut offs: Vec<u64> = Vec::new();
        if let Some(tab) = self.ar.table(offt) {
            for v in tab.iter() {
                if *v <= (size - n) as u128 {
                    offs.push(*v as u64);
                }
            }
            offs.sort_unstable();
            offs.dedup();
        } else {
            if size > 8192 {
                let a = self.concretize(&Val::S(addr), 64)?;
                return self.load(t, a as u64);
            }
            // Strides
            let mut step = 1;
            for s in [16u64, 8, 4, 2] {
                let k = self.ar.cst(64, (s - 1) as u128);
                let r = self.ar.bin(Op::And, offt, k);
                let z = self.ar.cst(64, 0);
                let e = self.ar.bin(Op::Eq, r, z);
                let ne = self.ar.not(e);
                if self.query(ne)?.is_none() {
                    step = s;
                    break;
                }
            }
            let mut o = 0;
            while o <= size - n {
                offs.push(o);
                o += step;
            }
        }
        let w = t.bits();
        let mut groups: Vec<(Val, Vec<u64>)> = Vec::new();
        let mut index: HashMap<(bool, u128), usize> = HashMap::new();
        for o in offs {
            let v = self.load(t, obase + o)?;
            let k = match &v {
                Val::C(c) => (true, *c),
                Val::S(t) => (false, *t as u128),
                _ => return unk("symbolic aggregate load"),
            };
            match index.get(&k) {
                Some(g) => groups[*g].1.push(o),
                None => {
                    index.insert(k, groups.len());
                    groups.push((v, vec![o]));
                }
            }
        }
        // The largest group is the default
        groups.sort_by_key(|g| g.1.len());
        let Some((mut r, _)) = groups.pop() else { return unk("no offsets") };
        for (v, os) in groups {
            let mut c = Val::C(0);
            for o in os {
                let k = self.ar.cst(64, o as u128);
                let e = self.ar.bin(Op::Eq, offt, k);
                let e = self.val(e);
                c = self.op2(Op::Or, 1, &c, &e);
            }
            r = self.ite(w, &c, &v, &r);
        }
        Ok(r)
    }

    fn copy(&mut self, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.obj(src, n, false)?;
        let n = n as usize;
        let data = o.data[off..off + n].to_vec();
        let sym = if o.sym.is_empty() || o.sym[off..off + n].iter().all(|s| *s == 0) {
            Vec::new()
        } else {
            o.sym[off..off + n].to_vec()
        };
        let (o, off) = self.obj(dst, n as u64, true)?;
        o.data[off..off + n].copy_from_slice(&data);
        if sym.is_empty() {
            if !o.sym.is_empty() {
                o.sym[off..off + n].fill(0);
            }
        } else {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            o.sym[off..off + n].copy_from_slice(&sym);
        }
        Ok(())
    }

    pub fn bytes(&mut self, addr: u64, n: u64) -> R<Vec<Val>> {
        let mut out = Vec::new();
        for i in 0..n {
            out.push(self.load_int(addr + i, 8)?);
        }
        Ok(out)
    }

    // ---- instructions ----

    #[inline]
    fn get(&self, o: &Opd) -> Val {
        match o {
            Opd::R(r) => self.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::C(c) => Val::C(*c),
            Opd::A(a) => cv_val(a),
        }
    }

    fn set(&mut self, r: u32, v: Val) {
        if r != NONE {
            self.frames.last_mut().unwrap().regs[r as usize] = v;
        }
    }

    fn push_frame(&mut self, f: usize, args: &[Val], dst: u32, then: u32) -> R<()> {
        if self.frames.len() >= self.lim.max_depth {
            return bad("the stack overflowed (recursion bound reached)");
        }
        let code = match self.m.code(f) {
            Ok(c) => c,
            Err(e) => return unk(e),
        };
        self.called[f] = true;
        let mut regs = self.free_regs.pop().unwrap_or_default();
        regs.clear();
        regs.resize(code.nregs, Val::C(0));
        for (i, p) in code.params.iter().enumerate() {
            if let Some(a) = args.get(i) {
                regs[*p as usize] = a.clone();
            }
        }
        self.frames.push(Frame { code, func: f, regs, block: 0, pc: 0, allocas: Vec::new(), ret_dst: dst, ret_then: then });
        Ok(())
    }

    fn jump(&mut self, to: u32) -> R<()> {
        let f = self.frames.last().unwrap();
        let from = f.block;
        let code = f.code.clone();
        let b = &code.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let Some((_, o)) = p.from.iter().find(|(x, _)| *x == from) else {
                    return unk("phi without a matching predecessor");
                };
                vals.push((p.dst, self.get(o)));
            }
            for (d, v) in vals {
                self.set(d, v);
            }
        }
        let f = self.frames.last_mut().unwrap();
        f.block = to;
        f.pc = 0;
        Ok(())
    }

    fn go(&mut self, entry: usize) -> R<()> {
        self.push_frame(entry, &[], NONE, NONE)?;
        loop {
            let f = self.frames.last_mut().unwrap();
            let code = f.code.clone();
            let i = &code.blocks[f.block as usize].ins[f.pc];
            f.pc += 1;
            self.steps += 1;
            if self.steps > self.lim.max_steps {
                return bad("did not terminate (step bound reached)");
            }
            if i.dbg != 0 {
                let d = i.dbg as usize;
                if self.dbg.len() <= d {
                    self.dbg.resize(d + 1, false);
                }
                self.dbg[d] = true;
            }
            if self.step(i)? {
                return Ok(());
            }
        }
    }

    fn lanes(&mut self, t: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, &Ty, &Val, &Val) -> R<Val>) -> R<Val> {
        if let Ty::Vec(n, e) = t {
            let (Val::A(x), Val::A(y)) = (a, b) else { return unk("vector operands") };
            let mut out = Vec::new();
            for i in 0..*n as usize {
                out.push(f(self, e, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        f(self, t, a, b)
    }

    /// The halves of an integer of 256 bits.
    fn halves(&mut self, v: &Val) -> R<(Val, Val)> {
        match v {
            Val::A(x) if x.len() == 2 => Ok((x[0].clone(), x[1].clone())),
            // constants are kept to 128 bits: only those that can't have been cut
            Val::C(c) if c >> 127 == 0 => Ok((Val::C(*c), Val::C(0))),
            _ => unk("an integer wider than 128 bits"),
        }
    }

    /// Integers of 256 bits, as the library's 128-bit formatting uses them.
    fn wide(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if w != 256 {
            return unk("an integer wider than 128 bits");
        }
        let (alo, ahi) = self.halves(a)?;
        let (blo, bhi) = self.halves(b)?;
        match op {
            BinOp::Mul if matches!((&ahi, &bhi), (Val::C(0), Val::C(0))) => {
                let m = Val::C(u64::MAX as u128);
                let k = Val::C(64);
                let a0 = self.op2(Op::And, 128, &alo, &m);
                let a1 = self.op2(Op::LShr, 128, &alo, &k);
                let b0 = self.op2(Op::And, 128, &blo, &m);
                let b1 = self.op2(Op::LShr, 128, &blo, &k);
                let p00 = self.op2(Op::Mul, 128, &a0, &b0);
                let p01 = self.op2(Op::Mul, 128, &a0, &b1);
                let p10 = self.op2(Op::Mul, 128, &a1, &b0);
                let p11 = self.op2(Op::Mul, 128, &a1, &b1);
                let lo = self.op2(Op::Mul, 128, &alo, &blo);
                let mut mid = self.op2(Op::LShr, 128, &p00, &k);
                let mut hi = p11;
                for p in [&p01, &p10] {
                    let l = self.op2(Op::And, 128, p, &m);
                    mid = self.op2(Op::Add, 128, &mid, &l);
                    let h = self.op2(Op::LShr, 128, p, &k);
                    hi = self.op2(Op::Add, 128, &hi, &h);
                }
                let c = self.op2(Op::LShr, 128, &mid, &k);
                hi = self.op2(Op::Add, 128, &hi, &c);
                Ok(Val::A(Rc::new(vec![lo, hi])))
            }
            BinOp::LShr => match (&blo, &bhi) {
                (Val::C(n), Val::C(0)) if *n >= 128 && *n < 256 => {
                    let r = self.op2(Op::LShr, 128, &ahi, &Val::C(*n - 128));
                    Ok(Val::A(Rc::new(vec![r, Val::C(0)])))
                }
                _ => unk("a shift of an integer wider than 128 bits"),
            },
            _ => unk("an operation on an integer wider than 128 bits"),
        }
    }

    fn bin(&mut self, op: BinOp, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        let w = t.bits();
        if w > 128 {
            return self.wide(op, w, a, b);
        }
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => {
                let o = match op {
                    BinOp::FAdd => Op::FAdd,
                    BinOp::FSub => Op::FSub,
                    BinOp::FMul => Op::FMul,
                    BinOp::FDiv => Op::FDiv,
                    _ => match (a, b) {
                        (Val::C(x), Val::C(y)) => {
                            let r = if w == 32 {
                                (f32::from_bits(*x as u32) % f32::from_bits(*y as u32)).to_bits() as u128
                            } else {
                                (f64::from_bits(*x as u64) % f64::from_bits(*y as u64)).to_bits() as u128
                            };
                            return Ok(Val::C(r));
                        }
                        _ => return unk("frem"),
                    },
                };
                let (x, y) = (self.term(a, w), self.term(b, w));
                let t = self.ar.raw2(o, w, x, y);
                return Ok(self.val(t));
            }
        };
        if matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
            let z = self.op2(Op::Eq, w, b, &Val::C(0));
            if self.branch(&z)? {
                return bad("division by zero");
            }
        }
        Ok(self.op2(o, w, a, b))
    }

    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        match p {
            Pred::Eq => self.op2(Op::Eq, w, a, b),
            Pred::Ne => {
                let e = self.op2(Op::Eq, w, a, b);
                self.not1(&e)
            }
            Pred::Ult => self.op2(Op::Ult, w, a, b),
            Pred::Ule => self.op2(Op::Ule, w, a, b),
            Pred::Ugt => self.op2(Op::Ult, w, b, a),
            Pred::Uge => self.op2(Op::Ule, w, b, a),
            Pred::Slt => self.op2(Op::Slt, w, a, b),
            Pred::Sle => self.op2(Op::Sle, w, a, b),
            Pred::Sgt => self.op2(Op::Slt, w, b, a),
            Pred::Sge => self.op2(Op::Sle, w, b, a),
        }
    }

    fn fcmp(&mut self, p: &str, w: u32, a: &Val, b: &Val) -> R<Val> {
        let (x, y) = (self.term(a, w), self.term(b, w));
        let mut f2 = |s: &mut Self, o: Op, x: T, y: T| {
            let t = s.ar.raw2(o, 1, x, y);
            s.val(t)
        };
        let eq = f2(self, Op::FEq, x, y);
        let lt = f2(self, Op::FLt, x, y);
        let gt = f2(self, Op::FLt, y, x);
        let nx = self.ar.raw1(Op::FIsNan, 1, x);
        let ny = self.ar.raw1(Op::FIsNan, 1, y);
        let n = self.ar.bin(Op::Or, nx, ny);
        let uno = self.val(n);
        let (mut r, unordered) = match p {
            "false" => return Ok(Val::C(0)),
            "true" => return Ok(Val::C(1)),
            "ord" => return Ok(self.not1(&uno)),
            "uno" => return Ok(uno),
            "oeq" => (eq, false),
            "ueq" => (eq, true),
            "olt" => (lt, false),
            "ult" => (lt, true),
            "ogt" => (gt, false),
            "ugt" => (gt, true),
            "ole" | "ule" => (self.op2(Op::Or, 1, &lt, &eq), p == "ule"),
            "oge" | "uge" => (self.op2(Op::Or, 1, &gt, &eq), p == "uge"),
            "one" | "une" => (self.op2(Op::Or, 1, &lt, &gt), p == "une"),
            _ => return unk("fcmp predicate"),
        };
        if unordered {
            r = self.op2(Op::Or, 1, &r, &uno);
        }
        Ok(r)
    }

    fn cast(&mut self, k: Cast, ft: &Ty, v: &Val, tt: &Ty) -> R<Val> {
        if k == Cast::BitCast {
            return match (ft, tt) {
                (Ty::Vec(_, e), Ty::Vec(n2, e2)) => {
                    let x = self.join(v, e.bits());
                    self.split(&x, *n2, e2.bits())
                }
                (Ty::Vec(_, e), _) => Ok(self.join(v, e.bits())),
                (_, Ty::Vec(n, e)) => self.split(v, *n, e.bits()),
                _ => Ok(v.clone()),
            };
        }
        if let (Ty::Vec(_, fe), Ty::Vec(_, te)) = (ft, tt) {
            let Val::A(xs) = v else { return unk("vector cast") };
            let mut out = Vec::new();
            for x in xs.iter() {
                out.push(self.cast(k, fe, x, te)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let (fw, tw) = (ft.bits(), tt.bits());
        let k = if k == Cast::PtrInt {
            if tw < fw {
                Cast::Trunc
            } else {
                Cast::ZExt
            }
        } else {
            k
        };
        if fw > 128 || tw > 128 {
            return match k {
                Cast::ZExt if fw <= 128 && tw == 256 => {
                    let lo = self.cast(k, ft, v, &Ty::Int(128))?;
                    Ok(Val::A(Rc::new(vec![lo, Val::C(0)])))
                }
                Cast::Trunc if fw == 256 && tw <= 128 => {
                    let (lo, _) = self.halves(v)?;
                    self.cast(k, &Ty::Int(128), &lo, tt)
                }
                _ => unk("an integer wider than 128 bits"),
            };
        }
        match k {
            Cast::Trunc => Ok(match v {
                Val::C(c) => Val::C(c & mask(tw)),
                Val::S(t) => {
                    let t = self.ar.extract(*t, tw - 1, 0);
                    self.val(t)
                }
                _ => return unk("trunc"),
            }),
            Cast::ZExt => Ok(match v {
                Val::S(t) => {
                    let t = self.ar.zext(*t, tw);
                    self.val(t)
                }
                x => x.clone(),
            }),
            Cast::SExt => Ok(match v {
                Val::C(c) => Val::C(sext(*c, fw) as u128 & mask(tw)),
                Val::S(t) => {
                    let t = self.ar.sext(*t, tw);
                    self.val(t)
                }
                _ => return unk("sext"),
            }),
            Cast::FpExt | Cast::FpTrunc | Cast::SiToFp | Cast::UiToFp | Cast::FpToSi | Cast::FpToUi => {
                let o = match k {
                    Cast::FpExt => Op::FpExt,
                    Cast::FpTrunc => Op::FpTrunc,
                    Cast::SiToFp => Op::SiToFp,
                    Cast::UiToFp => Op::UiToFp,
                    Cast::FpToSi => Op::FpToSi,
                    _ => Op::FpToUi,
                };
                let x = self.term(v, fw);
                let t = self.ar.raw1(o, tw, x);
                Ok(self.val(t))
            }
            _ => unk("cast"),
        }
    }

    fn ret(&mut self, v: Option<Val>) -> R<bool> {
        let f = self.frames.pop().unwrap();
        for a in &f.allocas {
            let o = &mut self.objs[((a >> SHIFT) - self.base) as usize];
            o.alive = false;
            o.data = Vec::new();
            o.sym = Vec::new();
        }
        let mut regs = f.regs;
        regs.clear();
        self.free_regs.push(regs);
        if self.frames.is_empty() {
            return Ok(true);
        }
        if let Some(v) = v {
            self.set(f.ret_dst, v);
        }
        if f.ret_then != NONE {
            self.jump(f.ret_then)?;
        }
        Ok(false)
    }

    fn step(&mut self, i: &I) -> R<bool> {
        match &i.ins {
            Ins::Nop => {}
            Ins::Bin(op, t, a, b) => {
                let (x, y) = (self.get(a), self.get(b));
                let op = *op;
                let v = if let Ty::Vec(..) = t {
                    self.lanes(t, &x, &y, &mut |s, t, a, b| s.bin(op, t, a, b))?
                } else {
                    self.bin(op, t, &x, &y)?
                };
                self.set(i.dst, v);
            }
            Ins::ICmp(_, Ty::Int(w), ..) | Ins::Select(_, Ty::Int(w), ..) | Ins::Load(Ty::Int(w), _) | Ins::Store(Ty::Int(w), ..) if *w > 128 => {
                return unk("an integer wider than 128 bits");
            }
            Ins::ICmp(p, t, a, b) => {
                let (x, y) = (self.get(a), self.get(b));
                let p = *p;
                let v = if let Ty::Vec(..) = t {
                    self.lanes(t, &x, &y, &mut |s, t, a, b| Ok(s.icmp(p, t.bits(), a, b)))?
                } else {
                    self.icmp(p, t.bits(), &x, &y)
                };
                self.set(i.dst, v);
            }
            Ins::FCmp(p, t, a, b) => {
                let (x, y) = (self.get(a), self.get(b));
                let v = self.fcmp(p, t.bits(), &x, &y)?;
                self.set(i.dst, v);
            }
            Ins::FNeg(t, a) => {
                let x = self.get(a);
                let w = t.bits();
                let v = self.op2(Op::Xor, w, &x, &Val::C(1 << (w - 1)));
                self.set(i.dst, v);
            }
            Ins::Cast(k, ft, a, tt) => {
                let x = self.get(a);
                let v = self.cast(*k, ft, &x, tt)?;
                self.set(i.dst, v);
            }
            Ins::Select(ct, t, c, a, b) => {
                let (c, x, y) = (self.get(c), self.get(a), self.get(b));
                let v = if let Ty::Vec(n, e) = t {
                    let (Val::A(xs), Val::A(ys)) = (&x, &y) else { return unk("select") };
                    let mut out = Vec::new();
                    for j in 0..*n as usize {
                        let cj = match (&c, ct) {
                            (Val::A(cs), _) => cs[j].clone(),
                            (c, _) => c.clone(),
                        };
                        out.push(self.ite(e.bits(), &cj, &xs[j], &ys[j]));
                    }
                    Val::A(Rc::new(out))
                } else if t.is_agg() {
                    if self.branch(&c)? {
                        x
                    } else {
                        y
                    }
                } else if *t == Ty::Ptr && matches!(c, Val::S(_)) {
                    // Addresses stay concrete
                    if self.branch(&c)? {
                        x
                    } else {
                        y
                    }
                } else {
                    self.ite(t.bits(), &c, &x, &y)
                };
                self.set(i.dst, v);
            }
            Ins::Alloca(sz, n) => {
                let n = self.get(n);
                let n = self.concretize(&n, 64)?;
                let a = self.alloc(sz * n as u64, Kind::Stack);
                self.frames.last_mut().unwrap().allocas.push(a);
                self.set(i.dst, Val::C(a as u128));
            }
            Ins::Load(t, p) => {
                let v = match self.get(p) {
                    Val::C(a) => self.load(t, a as u64)?,
                    Val::S(a) => self.load_sym(t, a)?,
                    _ => return unk("load"),
                };
                self.set(i.dst, v);
            }
            Ins::Store(t, v, p) => {
                let p = self.get(p);
                let a = self.concretize(&p, 64)?;
                let v = self.get(v);
                self.store(t, a as u64, &v)?;
            }
            Ins::Gep(base, off, vars) => {
                let mut v = self.get(base);
                if matches!(v, Val::A(_)) {
                    return unk("vector of pointers");
                }
                if *off != 0 {
                    v = self.op2(Op::Add, 64, &v, &Val::C(*off as u128));
                }
                for (x, w, scale) in vars.iter() {
                    let mut x = self.get(x);
                    if *w < 64 {
                        x = self.cast(Cast::SExt, &Ty::Int(*w), &x, &Ty::Int(64))?;
                    }
                    if *scale != 1 {
                        x = self.op2(Op::Mul, 64, &x, &Val::C(*scale as u128));
                    }
                    v = self.op2(Op::Add, 64, &v, &x);
                }
                self.set(i.dst, v);
            }
            Ins::Call(c, args, rt) => return self.call(i, c, args, rt),
            Ins::Extract(x, ix) => {
                let mut v = self.get(x);
                for k in ix.iter() {
                    let Val::A(vs) = &v else { return unk("extractvalue") };
                    let n = vs[*k].clone();
                    v = n;
                }
                self.set(i.dst, v);
            }
            Ins::Insert(t, x, y, ix) => {
                let (v, y) = (self.get(x), self.get(y));
                fn ins(v: &Val, t: &Ty, ix: &[usize], y: Val) -> Val {
                    if ix.is_empty() {
                        return y;
                    }
                    let mut vs = match v {
                        Val::A(vs) => (**vs).clone(),
                        _ => vec![Val::C(0); t.count()],
                    };
                    let k = ix[0];
                    vs[k] = ins(&vs[k].clone(), &t.elem(k), &ix[1..], y);
                    Val::A(Rc::new(vs))
                }
                let r = ins(&v, t, ix, y);
                self.set(i.dst, r);
            }
            Ins::ExtElem(x, k) => {
                let (v, k) = (self.get(x), self.get(k));
                let k = self.concretize(&k, 64)?;
                let Val::A(vs) = &v else { return unk("extractelement") };
                let r = vs[k as usize].clone();
                self.set(i.dst, r);
            }
            Ins::InsElem(x, y, k) => {
                let (v, y, k) = (self.get(x), self.get(y), self.get(k));
                let k = self.concretize(&k, 64)?;
                let Val::A(vs) = &v else { return unk("insertelement") };
                let mut vs = (**vs).clone();
                vs[k as usize] = y;
                self.set(i.dst, Val::A(Rc::new(vs)));
            }
            Ins::Shuffle(x, y, mk) => {
                let (x, y) = (self.get(x), self.get(y));
                let (Val::A(xs), Val::A(ys)) = (&x, &y) else { return unk("shufflevector") };
                let n = xs.len() as i64;
                let out = mk
                    .iter()
                    .map(|k| if *k < n { xs[*k as usize].clone() } else { ys[(*k - n) as usize].clone() })
                    .collect();
                self.set(i.dst, Val::A(Rc::new(out)));
            }
            Ins::Copy(x) => {
                let v = self.get(x);
                self.set(i.dst, v);
            }
            Ins::Rmw(op, t, p, v) => {
                let (p, v) = (self.get(p), self.get(v));
                let a = self.concretize(&p, 64)? as u64;
                let old = self.load(t, a)?;
                let w = t.bits();
                let new = match &**op {
                    "xchg" => v,
                    "add" => self.op2(Op::Add, w, &old, &v),
                    "sub" => self.op2(Op::Sub, w, &old, &v),
                    "and" => self.op2(Op::And, w, &old, &v),
                    "or" => self.op2(Op::Or, w, &old, &v),
                    "xor" => self.op2(Op::Xor, w, &old, &v),
                    _ => return unk("atomicrmw"),
                };
                self.store(t, a, &new)?;
                self.set(i.dst, old);
            }
            Ins::CmpXchg(t, p, c, n) => {
                let (p, c, n) = (self.get(p), self.get(c), self.get(n));
                let a = self.concretize(&p, 64)? as u64;
                let old = self.load(t, a)?;
                let e = self.op2(Op::Eq, t.bits(), &old, &c);
                let ok = self.branch(&e)?;
                if ok {
                    self.store(t, a, &n)?;
                }
                self.set(i.dst, Val::A(Rc::new(vec![old, Val::C(ok as u128)])));
            }
            Ins::Br(b) => self.jump(*b)?,
            Ins::CondBr(c, x, y) => {
                let c = self.get(c);
                let b = self.branch(&c)?;
                self.jump(if b { *x } else { *y })?;
            }
            Ins::Switch(t, v, d, cs) => {
                let v = self.get(v);
                let to = match &v {
                    Val::C(c) => cs.iter().find(|(k, _)| k == c).map(|(_, b)| *b).unwrap_or(*d),
                    Val::S(s) => self.switch(*s, t.bits(), *d, cs)?,
                    _ => return unk("switch"),
                };
                self.jump(to)?;
            }
            Ins::Ret(x) => {
                let v = self.get(x);
                return self.ret(Some(v));
            }
            Ins::RetVoid => return self.ret(None),
            Ins::Unreachable => return bad("reached code that the compiler assumed unreachable (undefined behaviour)"),
        }
        Ok(false)
    }

    fn switch(&mut self, s: T, w: u32, d: u32, cs: &[(u128, u32)]) -> R<u32> {
        // A condition for each target
        let mut targets: Vec<(u32, T)> = Vec::new();
        let mut none = self.ar.cst(1, 1);
        for (k, b) in cs {
            let kt = self.ar.cst(w, *k);
            let e = self.ar.bin(Op::Eq, s, kt);
            let ne = self.ar.not(e);
            none = self.ar.bin(Op::And, none, ne);
            match targets.iter_mut().find(|(x, _)| x == b) {
                Some((_, c)) => *c = self.ar.bin(Op::Or, *c, e),
                None => targets.push((*b, e)),
            }
        }
        match targets.iter_mut().find(|(x, _)| *x == d) {
            Some((_, c)) => *c = self.ar.bin(Op::Or, *c, none),
            None => targets.push((d, none)),
        }
        if let Some(k) = self.replay() {
            let (b, c) = targets[(k >> 1) as usize];
            if k & 1 == 0 {
                self.assume(c);
            }
            return Ok(b);
        }
        let mut now = None;
        let mut others = Vec::new();
        for (i, (_, c)) in targets.iter().enumerate() {
            if now.is_none() && self.holds(*c) {
                now = Some(i);
            } else if let Some(m) = self.query(*c)? {
                others.push((i, m));
            }
        }
        let Some(now) = now else { return unk("no feasible switch target") };
        if others.is_empty() {
            self.trace.push(((now as u128) << 1) | 1);
            return Ok(targets[now].0);
        }
        for (i, m) in others.into_iter().rev() {
            self.alternative((i as u128) << 1, m);
        }
        self.trace.push((now as u128) << 1);
        self.assume(targets[now].1);
        Ok(targets[now].0)
    }

    fn call(&mut self, i: &I, c: &Callee, args: &[(Ty, Opd)], rt: &Ty) -> R<bool> {
        let vals: Vec<Val> = args.iter().map(|(_, o)| self.get(o)).collect();
        let f = match c {
            Callee::Fn(f) => *f,
            Callee::Ext(n) => {
                let v = self.external(n, args, &vals, rt)?;
                if let Some(v) = v {
                    self.set(i.dst, v);
                }
                if i.then != NONE {
                    self.jump(i.then)?;
                }
                return Ok(false);
            }
            Callee::Ind(o) => {
                let v = self.get(o);
                let a = self.concretize(&v, 64)? as u64;
                let id = a >> SHIFT;
                if a & 0xFFFF_FFFF != 0 || id < FN0 {
                    return bad(format!("call through an invalid pointer {a:#x}"));
                }
                if id >= EXT0 {
                    let n = self.m.extern_names[(id - EXT0) as usize].clone();
                    let v = self.external(&n, args, &vals, rt)?;
                    if let Some(v) = v {
                        self.set(i.dst, v);
                    }
                    if i.then != NONE {
                        self.jump(i.then)?;
                    }
                    return Ok(false);
                }
                (id - FN0) as usize
            }
            Callee::Skip => return Ok(false),
        };
        if self.m.funcs[f].panics {
            let loc = self.location(&vals);
            return bad(format!("panic{loc}"));
        }
        self.push_frame(f, &vals, i.dst, i.then)?;
        Ok(false)
    }

    /// The source location a panic was raised with.
    fn location(&mut self, vals: &[Val]) -> String {
        for v in vals.iter().rev() {
            if let Val::C(a) = v {
                let a = *a as u64;
                if a >> SHIFT < GLOBAL0 {
                    continue;
                }
                let (Ok(Val::C(p)), Ok(Val::C(n)), Ok(Val::C(l))) =
                    (self.load_int(a, 64), self.load_int(a + 8, 64), self.load_int(a + 16, 32))
                else {
                    continue;
                };
                if n > 400 || n < 4 {
                    continue;
                }
                let Ok(bs) = self.bytes(p as u64, n as u64) else { continue };
                let s: String = bs
                    .iter()
                    .map(|b| match b {
                        Val::C(c) => *c as u8 as char,
                        _ => '?',
                    })
                    .collect();
                if s.contains(".rs") {
                    return format!(" at {s}:{l}");
                }
            }
        }
        String::new()
    }

    fn cstr(&mut self, a: u64, n: u64) -> String {
        match self.bytes(a, n) {
            Ok(bs) => bs
                .iter()
                .map(|b| match b {
                    Val::C(c) => *c as u8 as char,
                    _ => '?',
                })
                .collect(),
            Err(_) => String::new(),
        }
    }

    fn fresh(&mut self) -> R<Val> {
        let i = self.nvars;
        if i >= MAX_VARS {
            return unk("too many symbolic bytes");
        }
        self.nvars += 1;
        if let Some(c) = &self.concrete {
            return Ok(Val::C(*c.get(i as usize).unwrap_or(&0) as u128));
        }
        if self.model.len() <= i as usize {
            self.model.push(0);
        }
        Ok(Val::S(self.ar.var(i)))
    }

    fn external(&mut self, n: &str, args: &[(Ty, Opd)], v: &[Val], rt: &Ty) -> R<Option<Val>> {
        if let Some(r) = n.strip_prefix("llvm.") {
            return self.intrinsic(r, args, v, rt);
        }
        macro_rules! conc {
            ($i:expr) => {{
                let x = v[$i].clone();
                self.concretize(&x, args[$i].0.bits())? as u64
            }};
        }
        match n {
            "irx_sym" => {
                let (p, k) = (conc!(0), conc!(1));
                for j in 0..k {
                    let x = self.fresh()?;
                    self.store_int(p + j, 8, &x)?;
                }
                Ok(None)
            }
            // A fresh byte below a bound; the path forks on its value
            "irx_choice" => {
                let k = conc!(0) as u32;
                if self.concrete.is_some() {
                    let Val::C(c) = self.fresh()? else { return unk("choice") };
                    if c >= k as u128 {
                        return Err(Stop::Assume);
                    }
                    return Ok(Some(Val::C(c)));
                }
                let Val::S(x) = self.fresh()? else { return unk("choice") };
                let d = match self.replay() {
                    Some(d) => d,
                    None => {
                        let at = self.nvars as usize - 1;
                        for a in (1..k).rev() {
                            let mut m = self.model.clone();
                            m[at] = a as u8;
                            self.alternative(a as u128, m);
                        }
                        self.trace.push(0);
                        0
                    }
                };
                let kt = self.ar.cst(8, d);
                let e = self.ar.bin(Op::Eq, x, kt);
                self.assume(e);
                Ok(Some(Val::C(d)))
            }
            "irx_assume" => {
                match &v[0] {
                    Val::C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Assume);
                        }
                    }
                    Val::S(t) => {
                        let t = *t;
                        match self.replay() {
                            Some(_) => self.assume(t),
                            None => {
                                if !self.holds(t) {
                                    match self.query(t)? {
                                        Some(m) => self.set_model(m),
                                        None => return Err(Stop::Assume),
                                    }
                                }
                                self.trace.push(9);
                                self.assume(t)
                            }
                        }
                    }
                    _ => return unk("assume"),
                }
                Ok(None)
            }
            "irx_fail" => {
                let (p, k) = (conc!(0), conc!(1));
                let s = self.cstr(p, k);
                bad(s)
            }
            "irx_reach" => {
                let k = conc!(0);
                self.path_reached.insert(k as u32);
                Ok(None)
            }
            "irx_obs" => {
                let (p, k) = (conc!(0), conc!(1));
                self.obs.push(Val::C(256 + k as u128));
                for j in 0..k {
                    let x = self.load_int(p + j, 8)?;
                    self.obs.push(x);
                }
                Ok(None)
            }
            // Are two runs of bytes equal? What the term rewriter finds equal is put to the solver too.
            "irx_eq" => {
                let (p, q, k) = (conc!(0), conc!(1), conc!(2));
                let mut c = Val::C(1);
                let mut pairs = Vec::new();
                for j in 0..k {
                    let (x, y) = (self.load_int(p + j, 8)?, self.load_int(q + j, 8)?);
                    if let (Val::C(x), Val::C(y)) = (&x, &y) {
                        if x != y {
                            return Ok(Some(Val::C(0)));
                        }
                        continue;
                    }
                    let (a, b) = (self.term(&x, 8), self.term(&y, 8));
                    pairs.push((a, b));
                    let e = self.ar.bin(Op::Eq, a, b);
                    let e = self.val(e);
                    c = self.op2(Op::And, 1, &c, &e);
                }
                if let (Val::C(1), false) = (&c, pairs.is_empty()) {
                    pairs.sort_unstable();
                    pairs.dedup();
                    let mut sup = [0u64; 4];
                    for (a, _) in &pairs {
                        for j in 0..4 {
                            sup[j] |= self.ar.sup[*a as usize][j];
                        }
                    }
                    let (cs, _) = self.relevant(sup);
                    match self.smt.differ(&self.ar, cs, &pairs) {
                        Res::Unsat => {}
                        Res::Sat => return unk("the solver and the rewriter disagree"),
                        Res::Unknown => return unk("the solver gave up on an obligation"),
                    }
                }
                self.branch(&c).map(|b| Some(Val::C(b as u128)))
            }
            // Fork on the value of a byte
            "irx_concrete" => {
                let x = v[0].clone();
                let c = self.concretize(&x, args[0].0.bits())?;
                Ok(Some(Val::C(c)))
            }
            "malloc" => {
                let k = conc!(0);
                if k > 1 << 30 {
                    return Ok(Some(Val::C(0)));
                }
                let a = self.alloc(k, Kind::Heap);
                Ok(Some(Val::C(a as u128)))
            }
            "calloc" => {
                let k = conc!(0) * conc!(1);
                if k > 1 << 30 {
                    return Ok(Some(Val::C(0)));
                }
                let a = self.alloc(k, Kind::Heap);
                let (o, _) = self.obj(a, k, true)?;
                o.data.fill(0);
                Ok(Some(Val::C(a as u128)))
            }
            "realloc" => {
                let (p, k) = (conc!(0), conc!(1));
                if k > 1 << 30 {
                    return Ok(Some(Val::C(0)));
                }
                let a = self.alloc(k, Kind::Heap);
                let old = self.obj(p, 0, false)?.0.data.len() as u64;
                self.copy(a, p, old.min(k))?;
                self.free(p)?;
                Ok(Some(Val::C(a as u128)))
            }
            "posix_memalign" => {
                let (pp, k) = (conc!(0), conc!(2));
                let a = self.alloc(k, Kind::Heap);
                self.store_int(pp, 64, &Val::C(a as u128))?;
                Ok(Some(Val::C(0)))
            }
            "free" => {
                let p = conc!(0);
                if p != 0 {
                    self.free(p)?;
                }
                Ok(None)
            }
            "memcpy" | "memmove" => {
                let (d, s, k) = (conc!(0), conc!(1), conc!(2));
                self.copy(d, s, k)?;
                Ok(Some(Val::C(d as u128)))
            }
            "memset" => {
                let (d, k) = (conc!(0), conc!(2));
                let b = self.cast(Cast::Trunc, &args[1].0, &v[1], &Ty::Int(8))?;
                for j in 0..k {
                    self.store_int(d + j, 8, &b)?;
                }
                Ok(Some(Val::C(d as u128)))
            }
            "bcmp" | "memcmp" => {
                let (a, b, k) = (conc!(0), conc!(1), conc!(2));
                let (x, y) = if k == 0 { (vec![], vec![]) } else { (self.bytes(a, k)?, self.bytes(b, k)?) };
                let mut r = Val::C(0);
                if n == "bcmp" {
                    let mut eq = Val::C(1);
                    for (p, q) in x.iter().zip(&y) {
                        let e = self.op2(Op::Eq, 8, p, q);
                        eq = self.op2(Op::And, 1, &eq, &e);
                    }
                    r = self.ite(32, &eq, &Val::C(0), &Val::C(1));
                } else {
                    for (p, q) in x.iter().zip(&y).rev() {
                        let e = self.op2(Op::Eq, 8, p, q);
                        let lt = self.op2(Op::Ult, 8, p, q);
                        let d = self.ite(32, &lt, &Val::C(0xFFFF_FFFF), &Val::C(1));
                        r = self.ite(32, &e, &r, &d);
                    }
                }
                Ok(Some(r))
            }
            "memchr" => {
                let (a, k) = (conc!(0), conc!(2));
                let c = self.cast(Cast::Trunc, &args[1].0, &v[1], &Ty::Int(8))?;
                for j in 0..k {
                    let b = self.load_int(a + j, 8)?;
                    let e = self.op2(Op::Eq, 8, &b, &c);
                    if self.branch(&e)? {
                        return Ok(Some(Val::C((a + j) as u128)));
                    }
                }
                Ok(Some(Val::C(0)))
            }
            "strlen" => {
                let a = conc!(0);
                let mut k = 0;
                loop {
                    let b = self.load_int(a + k, 8)?;
                    if self.concretize(&b, 8)? == 0 {
                        return Ok(Some(Val::C(k as u128)));
                    }
                    k += 1;
                }
            }
            // The seed of a hash map: one fixed seed stands for all
            "getrandom" => {
                let (d, k) = (conc!(0), conc!(1));
                for j in 0..k {
                    self.store_int(d + j, 8, &Val::C(0x5A))?;
                }
                Ok(Some(Val::C(k as u128)))
            }
            // Destructors of thread locals run after everything that is checked
            "__cxa_thread_atexit_impl" => Ok(Some(Val::C(0))),
            "abort" => bad("abort"),
            _ => unk(format!("call of an external function {n}")),
        }
    }

    fn intrinsic(&mut self, n: &str, args: &[(Ty, Opd)], v: &[Val], rt: &Ty) -> R<Option<Val>> {
        let name = n.split('.').next().unwrap();
        let w = args.get(0).map_or(0, |a| a.0.bits());
        macro_rules! conc {
            ($i:expr) => {{
                let x = v[$i].clone();
                self.concretize(&x, args[$i].0.bits())? as u64
            }};
        }
        // Element-wise
        if let (Ty::Vec(k, e), true) = (rt, !matches!(name, "vector" | "masked" | "memcpy" | "memmove" | "memset") && !n.contains("with.overflow")) {
            let mut out = Vec::new();
            for j in 0..*k as usize {
                let a2: Vec<(Ty, Opd)> = args.iter().map(|(t, o)| (if t.is_agg() { (**e).clone() } else { t.clone() }, o.clone())).collect();
                let v2: Vec<Val> = v
                    .iter()
                    .map(|x| match x {
                        Val::A(vs) => vs[j].clone(),
                        x => x.clone(),
                    })
                    .collect();
                out.push(self.intrinsic(n, &a2, &v2, e)?.unwrap());
            }
            return Ok(Some(Val::A(Rc::new(out))));
        }
        match name {
            "memcpy" | "memmove" => {
                let k = conc!(2);
                if k != 0 {
                    let (d, s) = (conc!(0), conc!(1));
                    self.copy(d, s, k)?;
                }
                Ok(None)
            }
            "memset" => {
                let k = conc!(2);
                if k == 0 {
                    return Ok(None);
                }
                let d = conc!(0);
                if let Val::C(c) = v[1] {
                    let (o, off) = self.obj(d, k, true)?;
                    o.data[off..off + k as usize].fill(c as u8);
                    if !o.sym.is_empty() {
                        o.sym[off..off + k as usize].fill(0);
                    }
                } else {
                    for j in 0..k {
                        self.store_int(d + j, 8, &v[1])?;
                    }
                }
                Ok(None)
            }
            "assume" | "sideeffect" | "var" => Ok(None),
            "x86" if n.ends_with(".pause") => Ok(None),
            "expect" => Ok(Some(v[0].clone())),
            "is" if n.starts_with("is.constant") => Ok(Some(Val::C(0))),
            "is" if n.starts_with("is.fpclass") => {
                let Val::C(mk) = v[1] else { return unk("fpclass") };
                let r = self.fpclass(w, &v[0], mk as u32);
                Ok(Some(r))
            }
            "threadlocal" | "launder" | "strip" => Ok(Some(v[0].clone())),
            "trap" | "debugtrap" | "ubsantrap" => bad("trap"),
            "umin" | "umax" | "smin" | "smax" => {
                let o = if name.starts_with('u') { Op::Ult } else { Op::Slt };
                let lt = self.op2(o, w, &v[0], &v[1]);
                let r = if name.ends_with("min") {
                    self.ite(w, &lt, &v[0], &v[1])
                } else {
                    self.ite(w, &lt, &v[1], &v[0])
                };
                Ok(Some(r))
            }
            "abs" => {
                let neg = self.op2(Op::Slt, w, &v[0], &Val::C(0));
                let m = self.op2(Op::Sub, w, &Val::C(0), &v[0]);
                Ok(Some(self.ite(w, &neg, &m, &v[0])))
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let (a, b) = (&v[0], &v[1]);
                let o = match &name[1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let r = self.op2(o, w, a, b);
                let ov = match name {
                    "uadd" => self.op2(Op::Ult, w, &r, a),
                    "usub" => self.op2(Op::Ult, w, a, b),
                    "sadd" | "ssub" => {
                        let x = self.op2(Op::Xor, w, a, &r);
                        let y = if name == "sadd" {
                            self.op2(Op::Xor, w, b, &r)
                        } else {
                            self.op2(Op::Xor, w, a, b)
                        };
                        let z = self.op2(Op::And, w, &x, &y);
                        self.op2(Op::Slt, w, &z, &Val::C(0))
                    }
                    _ => {
                        let (x, y) = (self.term(a, w), self.term(b, w));
                        let t = self.ar.raw2(if name == "umul" { Op::UMulOk } else { Op::SMulOk }, 1, x, y);
                        let ok = self.val(t);
                        self.not1(&ok)
                    }
                };
                if n.contains("with.overflow") {
                    return Ok(Some(Val::A(Rc::new(vec![r, ov]))));
                }
                let sat = match name {
                    "uadd" => Val::C(mask(w)),
                    "usub" => Val::C(0),
                    "sadd" | "ssub" => {
                        let neg = self.op2(Op::Slt, w, a, &Val::C(0));
                        self.ite(w, &neg, &Val::C(1 << (w - 1)), &Val::C(mask(w - 1)))
                    }
                    _ => return unk(n),
                };
                Ok(Some(self.ite(w, &ov, &sat, &r)))
            }
            "ucmp" | "scmp" => {
                let o = if name == "ucmp" { Op::Ult } else { Op::Slt };
                let lt = self.op2(o, w, &v[0], &v[1]);
                let gt = self.op2(o, w, &v[1], &v[0]);
                let rw = rt.bits();
                let r = self.ite(rw, &gt, &Val::C(1), &Val::C(0));
                Ok(Some(self.ite(rw, &lt, &Val::C(mask(rw)), &r)))
            }
            "ctpop" => {
                let mut r = Val::C(0);
                for k in 0..w {
                    let b = self.bit(&v[0], k);
                    let z = self.cast(Cast::ZExt, &Ty::Int(1), &b, &Ty::Int(w))?;
                    r = self.op2(Op::Add, w, &r, &z);
                }
                Ok(Some(r))
            }
            "ctlz" | "cttz" => {
                if let Val::C(c) = v[0] {
                    let k = if name == "ctlz" {
                        (c.leading_zeros() - (128 - w)) as u128
                    } else {
                        (c.trailing_zeros() as u128).min(w as u128)
                    };
                    return Ok(Some(Val::C(k)));
                }
                let mut r = Val::C(w as u128);
                for k in 0..w {
                    let (bit, val) = if name == "ctlz" { (k, w - 1 - k) } else { (w - 1 - k, w - 1 - k) };
                    let b = self.bit(&v[0], bit);
                    r = self.ite(w, &b, &Val::C(val as u128), &r);
                }
                Ok(Some(r))
            }
            "bswap" => {
                let mut r: Option<Val> = None;
                for k in 0..w / 8 {
                    let b = self.slice(&v[0], w, k * 8, 8);
                    r = Some(match r {
                        None => b,
                        Some(h) => {
                            let (x, y) = (self.term(&h, k * 8), self.term(&b, 8));
                            let t = self.ar.concat(x, y);
                            self.val(t)
                        }
                    });
                }
                Ok(r)
            }
            "bitreverse" => {
                let Val::C(c) = v[0] else { return unk("bitreverse") };
                Ok(Some(Val::C(c.reverse_bits() >> (128 - w))))
            }
            "fshl" | "fshr" => {
                let s = self.op2(Op::URem, w, &v[2], &Val::C(w as u128));
                let inv = self.op2(Op::Sub, w, &Val::C(w as u128), &s);
                let (hs, ls) = if name == "fshl" { (s, inv) } else { (inv, s) };
                let h = self.op2(Op::Shl, w, &v[0], &hs);
                let l = self.op2(Op::LShr, w, &v[1], &ls);
                Ok(Some(self.op2(Op::Or, w, &h, &l)))
            }
            "fabs" => Ok(Some(self.op2(Op::And, w, &v[0], &Val::C(mask(w - 1))))),
            "copysign" => {
                let m = self.op2(Op::And, w, &v[0], &Val::C(mask(w - 1)));
                let s = self.op2(Op::And, w, &v[1], &Val::C(1 << (w - 1)));
                Ok(Some(self.op2(Op::Or, w, &m, &s)))
            }
            "fptosi" | "fptoui" => {
                let tw = rt.bits();
                if let Val::C(c) = v[0] {
                    let f = if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                    let r = if name == "fptosi" {
                        let lo = if tw == 128 { i128::MIN } else { -(1i128 << (tw - 1)) };
                        (f as i128).clamp(lo, mask(tw - 1) as i128) as u128 & mask(tw)
                    } else {
                        (f as u128).min(mask(tw))
                    };
                    return Ok(Some(Val::C(r)));
                }
                let bits = |f: f64| Val::C(if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 });
                let two = 2f64;
                let (lo, hi, min, max, o) = if name == "fptosi" {
                    (-two.powi(tw as i32 - 1), two.powi(tw as i32 - 1), 1u128 << (tw - 1), mask(tw - 1), Op::FpToSi)
                } else {
                    (0.0, two.powi(tw as i32), 0, mask(tw), Op::FpToUi)
                };
                let x = self.term(&v[0], w);
                let t = self.ar.raw1(o, tw, x);
                let r = self.val(t);
                let big = self.fcmp("oge", w, &v[0], &bits(hi))?;
                let r = self.ite(tw, &big, &Val::C(max), &r);
                let small = self.fcmp("ole", w, &v[0], &bits(lo))?;
                let r = self.ite(tw, &small, &Val::C(min), &r);
                let nan = self.fcmp("uno", w, &v[0], &v[0])?;
                Ok(Some(self.ite(tw, &nan, &Val::C(0), &r)))
            }
            "trunc" | "floor" | "ceil" => {
                let o = match name {
                    "trunc" => Op::FTrunc,
                    "floor" => Op::FFloor,
                    _ => Op::FCeil,
                };
                let x = self.term(&v[0], w);
                let t = self.ar.raw1(o, w, x);
                Ok(Some(self.val(t)))
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let lt = self.fcmp("olt", w, &v[0], &v[1])?;
                let r = if name.starts_with("min") {
                    self.ite(w, &lt, &v[0], &v[1])
                } else {
                    self.ite(w, &lt, &v[1], &v[0])
                };
                let n0 = self.fcmp("uno", w, &v[0], &v[0])?;
                let n1 = self.fcmp("uno", w, &v[1], &v[1])?;
                let r = self.ite(w, &n0, &v[1], &r);
                Ok(Some(self.ite(w, &n1, &v[0], &r)))
            }
            "rint" | "round" | "roundeven" | "nearbyint" | "sqrt" => {
                let Val::C(c) = v[0] else { return unk(n) };
                macro_rules! go {
                    ($t:ty, $u:ty) => {{
                        let x = <$t>::from_bits(c as $u);
                        (match name {
                            "round" => x.round(),
                            "sqrt" => x.sqrt(),
                            _ => x.round_ties_even(),
                        })
                        .to_bits() as u128
                    }};
                }
                Ok(Some(Val::C(if w == 32 { go!(f32, u32) } else { go!(f64, u64) })))
            }
            "vector" if n.starts_with("vector.reduce.") => {
                let Val::A(vs) = &v[0] else { return unk(n) };
                let Ty::Vec(_, e) = &args[0].0 else { return unk(n) };
                let w = e.bits();
                let mut r = vs[0].clone();
                for x in &vs[1..] {
                    let m = n.split('.').nth(2).unwrap();
                    if matches!(m, "umax" | "umin" | "smax" | "smin") {
                        let a2 = vec![((**e).clone(), args[0].1.clone()); 2];
                        r = self.intrinsic(m, &a2, &[r, x.clone()], e)?.unwrap();
                        continue;
                    }
                    let o = match m {
                        "or" => Op::Or,
                        "and" => Op::And,
                        "xor" => Op::Xor,
                        "add" => Op::Add,
                        _ => return unk(n),
                    };
                    r = self.op2(o, w, &r, x);
                }
                Ok(Some(r))
            }
            "ptrmask" => Ok(Some(self.op2(Op::And, 64, &v[0], &v[1]))),
            "returnaddress" | "frameaddress" => Ok(Some(Val::C(0))),
            _ => unk(format!("intrinsic {n}")),
        }
    }

    fn bit(&mut self, v: &Val, k: u32) -> Val {
        match v {
            Val::C(c) => Val::C((c >> k) & 1),
            Val::S(t) => {
                let e = self.ar.extract(*t, k, k);
                self.val(e)
            }
            _ => panic!(),
        }
    }

    fn slice(&mut self, v: &Val, _w: u32, lo: u32, n: u32) -> Val {
        match v {
            Val::C(c) => Val::C((c >> lo) & mask(n)),
            Val::S(t) => {
                let e = self.ar.extract(*t, lo + n - 1, lo);
                self.val(e)
            }
            _ => panic!(),
        }
    }

    fn fpclass(&mut self, w: u32, v: &Val, mk: u32) -> Val {
        let (eb, mb) = if w == 32 { (8, 23) } else { (11, 52) };
        let exp = self.slice(v, w, mb, eb);
        let man = self.slice(v, w, 0, mb);
        let sign = self.bit(v, w - 1);
        let nsign = self.not1(&sign);
        let emax = self.op2(Op::Eq, eb, &exp, &Val::C(mask(eb)));
        let ezero = self.op2(Op::Eq, eb, &exp, &Val::C(0));
        let mzero = self.op2(Op::Eq, mb, &man, &Val::C(0));
        let mnz = self.not1(&mzero);
        let quiet = self.bit(v, mb - 1);
        let nquiet = self.not1(&quiet);
        let nemax = self.not1(&emax);
        let nezero = self.not1(&ezero);
        let nan = self.op2(Op::And, 1, &emax, &mnz);
        let inf = self.op2(Op::And, 1, &emax, &mzero);
        let zero = self.op2(Op::And, 1, &ezero, &mzero);
        let sub = self.op2(Op::And, 1, &ezero, &mnz);
        let norm = self.op2(Op::And, 1, &nemax, &nezero);
        let classes: [(u32, Val, Option<Val>); 10] = [
            (0, nan.clone(), Some(nquiet)),
            (1, nan, Some(quiet)),
            (2, inf.clone(), Some(sign.clone())),
            (3, norm.clone(), Some(sign.clone())),
            (4, sub.clone(), Some(sign.clone())),
            (5, zero.clone(), Some(sign)),
            (6, zero, Some(nsign.clone())),
            (7, sub, Some(nsign.clone())),
            (8, norm, Some(nsign.clone())),
            (9, inf, Some(nsign)),
        ];
        let mut r = Val::C(0);
        for (k, c, s) in classes {
            if mk & (1 << k) != 0 {
                let x = match s {
                    Some(s) => self.op2(Op::And, 1, &c, &s),
                    None => c,
                };
                r = self.op2(Op::Or, 1, &r, &x);
            }
        }
        r
    }
}
