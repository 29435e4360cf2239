//! Symbolic interpreter for the decoded module.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub b: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub sp0: u64,
}

pub enum Stop {
    End,
    Panic(String),
    Infeasible,
    Limit,
    Abort(String),
    Error(String),
    Halt, // whole run cancelled
}
type R<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Error(s.into()))
}

pub struct Choice {
    cur: Frame,
    stack: Vec<Rc<Frame>>,
    sp: u64,
    hp: u64,
    max_sp: u64,
    undo: usize,
    ncons: usize,
    ntrail: usize,
    cond: E,
    model: Vec<u64>,
    steps: u64,
    nout: usize,
    ncovers: usize,
    allow_panic: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String, // assert | panic | limit | abort
    pub code: String,
    pub values: Vec<(u32, u64)>,
}

/// path prefix handed to another worker
#[derive(Clone)]
pub struct Prefix {
    pub nodes: Vec<Node>, // closed expression table, children before parents
    pub conds: Vec<u32>,  // indices into nodes
    pub model: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    None,
    Panic,
    Malloc,
    Calloc,
    Realloc,
    Memalign,
    Free,
    Memcmp,
    Strlen,
    Memchr,
    HashWrite,
    HashFinish,
    Getenv,
    Getrandom,
    Zero,
    Abort,
    Errno,
    Memcpy,
    Memmove,
    Memset,
    Cttz,
    Ctlz,
    Ctpop,
    Umax,
    Umin,
    Smax,
    Smin,
    Abs,
    Fshl,
    Fshr,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UaddSat,
    UsubSat,
    Bswap,
    Bitrev,
    Ucmp,
    Scmp,
    Trap,
    Tls,
    IsConst,
    Expect,
    MovmskB,
    SymByte,
    SymU32,
    SymAssume,
    SymAssert,
    SymCover,
    SymFork,
    SymOut,
    SymParam,
    SymPanicOk,
    SymConcrete,
    Syscall,
    Write,
}

pub fn classify(name: &str) -> Ext {
    let ll = |p: &str| name.starts_with(p);
    if name.contains("4core9panicking")
        || name.contains("3std9panicking11begin_panic")
        || name.contains("3std9panicking15panic_with_hook")
        || name.contains("3std9panicking10rust_panic")
        || name.contains("13unwrap_failed")
        || name.contains("13expect_failed")
        || name.contains("16slice_error_fail")
        || name.contains("17capacity_overflow")
        || name.contains("18handle_alloc_error")
    {
        return Ext::Panic;
    }
    if name.contains("4core4hash3sip") {
        if name.contains("6finish") {
            return Ext::HashFinish;
        }
        return Ext::HashWrite;
    }
    if ll("llvm.memcpy") {
        return Ext::Memcpy;
    }
    if ll("llvm.memmove") {
        return Ext::Memmove;
    }
    if ll("llvm.memset") {
        return Ext::Memset;
    }
    let tbl: &[(&str, Ext)] = &[
        ("llvm.cttz", Ext::Cttz),
        ("llvm.ctlz", Ext::Ctlz),
        ("llvm.ctpop", Ext::Ctpop),
        ("llvm.umax", Ext::Umax),
        ("llvm.umin", Ext::Umin),
        ("llvm.smax", Ext::Smax),
        ("llvm.smin", Ext::Smin),
        ("llvm.abs", Ext::Abs),
        ("llvm.fshl", Ext::Fshl),
        ("llvm.fshr", Ext::Fshr),
        ("llvm.uadd.with", Ext::UaddO),
        ("llvm.usub.with", Ext::UsubO),
        ("llvm.umul.with", Ext::UmulO),
        ("llvm.sadd.with", Ext::SaddO),
        ("llvm.ssub.with", Ext::SsubO),
        ("llvm.smul.with", Ext::SmulO),
        ("llvm.uadd.sat", Ext::UaddSat),
        ("llvm.usub.sat", Ext::UsubSat),
        ("llvm.bswap", Ext::Bswap),
        ("llvm.bitreverse", Ext::Bitrev),
        ("llvm.ucmp", Ext::Ucmp),
        ("llvm.scmp", Ext::Scmp),
        ("llvm.trap", Ext::Trap),
        ("llvm.threadlocal", Ext::Tls),
        ("llvm.is.constant", Ext::IsConst),
        ("llvm.expect", Ext::Expect),
        ("llvm.x86.sse2.pmovmskb", Ext::MovmskB),
    ];
    for (p, e) in tbl {
        if ll(p) {
            return *e;
        }
    }
    match name {
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "posix_memalign" => Ext::Memalign,
        "free" => Ext::Free,
        "memcmp" | "bcmp" => Ext::Memcmp,
        "memcpy" => Ext::Memcpy,
        "memmove" => Ext::Memmove,
        "memset" => Ext::Memset,
        "strlen" => Ext::Strlen,
        "memchr" => Ext::Memchr,
        "getenv" => Ext::Getenv,
        "getrandom" => Ext::Getrandom,
        "syscall" => Ext::Syscall,
        "write" => Ext::Write,
        "__cxa_thread_atexit_impl" | "gettid" | "pthread_self" | "pthread_key_create" | "pthread_setspecific"
        | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_key_delete" | "pthread_getspecific" => Ext::Zero,
        "abort" | "_exit" | "exit" => Ext::Abort,
        "__errno_location" => Ext::Errno,
        "sym_byte" => Ext::SymByte,
        "sym_u32" => Ext::SymU32,
        "sym_assume" => Ext::SymAssume,
        "sym_assert" => Ext::SymAssert,
        "sym_cover" => Ext::SymCover,
        "sym_fork" => Ext::SymFork,
        "sym_out" => Ext::SymOut,
        "sym_param" => Ext::SymParam,
        "sym_panic_ok" => Ext::SymPanicOk,
        "sym_concrete" => Ext::SymConcrete,
        _ => Ext::None,
    }
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ext: &'m [Ext],
    pub pool: Pool,
    pub sol: Solver,
    pub mem: Mem,
    cur: Frame,
    stack: Vec<Rc<Frame>>,
    pub cons: Vec<E>,
    known: FxMap<E, bool>,
    trail: Vec<E>,
    pub model: Vec<u64>,
    pub choices: Vec<Choice>,
    pub steps: u64,
    pub total_steps: u64,
    pub step_limit: u64,
    pub entered: Vec<bool>,
    pub covers: std::collections::BTreeMap<u32, u64>,
    path_covers: Vec<u32>,
    pub out: Vec<Val>,
    pub param: u64,
    pub violations: Vec<Violation>,
    pub max_forks_addr: usize,
    allow_panic: bool,
    errno: u64,
    base: Option<Base>,
    pub nvars_seen: u128,
    pub asserts: u64,
    pub ended_by_panic: bool,
}

struct Base {
    sp: u64,
    hp: u64,
    undo: usize,
}

fn v_const(v: &Val) -> Option<u64> {
    match v {
        Val::C(x) => Some(*x),
        _ => None,
    }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, ext: &'m [Ext]) -> Self {
        Exec {
            m,
            ext,
            pool: Pool::new(),
            sol: Solver::new(),
            mem: Mem::new(GBASE, &m.image, m.gtop),
            cur: Frame { f: 0, b: 0, ip: 0, regs: vec![], sp0: 0 },
            stack: vec![],
            cons: vec![],
            known: FxMap::default(),
            trail: vec![],
            model: vec![0; 128],
            choices: vec![],
            steps: 0,
            total_steps: 0,
            step_limit: 50_000_000,
            entered: vec![false; m.funcs.len()],
            covers: Default::default(),
            path_covers: vec![],
            out: vec![],
            param: 0,
            violations: vec![],
            max_forks_addr: 300,
            allow_panic: false,
            errno: 0,
            base: None,
            nvars_seen: 0,
            asserts: 0,
            ended_by_panic: false,
        }
    }

    // ------------------------------------------------------------ values
    #[inline]
    fn ev(&self, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => self.cur.regs[*r as usize].clone(),
            Opnd::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&mut self, d: u32, v: Val) {
        self.cur.regs[d as usize] = v;
    }
    pub fn to_e(&mut self, v: &Val, w: u32) -> R<E> {
        Ok(match v {
            Val::C(x) => self.pool.konst(*x, w),
            Val::S(e) => *e,
            _ => return err("scalar expected"),
        })
    }
    #[inline]
    fn from_e(&self, e: E) -> Val {
        match self.pool.is_const(e) {
            Some(k) => Val::C(k),
            None => Val::S(e),
        }
    }

    // ------------------------------------------------------------ integers of 65 to 128 bits
    fn halves(&mut self, v: &Val) -> R<(E, E, u32)> {
        match v {
            Val::W(x) => {
                let lo = self.pool.konst(x.0 as u64, 64);
                let hi = self.pool.konst((x.0 >> 64) as u64, x.1 - 64);
                Ok((lo, hi, x.1))
            }
            Val::WS(x) => Ok(**x),
            _ => err("wide integer expected"),
        }
    }
    fn from_halves(&self, lo: E, hi: E, w: u32) -> Val {
        match (self.pool.is_const(lo), self.pool.is_const(hi)) {
            (Some(l), Some(h)) => Val::W(Arc::new(((h as u128) << 64 | l as u128, w))),
            _ => Val::WS(Arc::new((lo, hi, w))),
        }
    }
    /// shift of a 128 bit value by a constant below 128
    fn wide_shift(&mut self, o: Op, lo: E, hi: E, k: u64) -> (E, E) {
        if k == 0 {
            return (lo, hi);
        }
        let zero = self.pool.konst(0, 64);
        let kk = self.pool.konst(k % 64, 64);
        let kr = self.pool.konst(64 - k % 64, 64);
        if o == Op::Shl {
            let l = self.pool.bin(Op::Shl, 64, lo, kk);
            if k >= 64 {
                return (zero, l);
            }
            let h = self.pool.bin(Op::Shl, 64, hi, kk);
            let c = self.pool.bin(Op::LShr, 64, lo, kr);
            (l, self.pool.bin(Op::Or, 64, h, c))
        } else {
            let h = self.pool.bin(o, 64, hi, kk);
            if k >= 64 {
                let k63 = self.pool.konst(63, 64);
                let fill = if o == Op::AShr { self.pool.bin(Op::AShr, 64, hi, k63) } else { zero };
                return (h, fill);
            }
            let l = self.pool.bin(Op::LShr, 64, lo, kk);
            let c = self.pool.bin(Op::Shl, 64, hi, kr);
            (self.pool.bin(Op::Or, 64, l, c), h)
        }
    }
    fn wide_bin(&mut self, o: Op, w: u32, x: &Val, y: &Val) -> R<Val> {
        let (al, ah, _) = self.halves(x)?;
        let (bl, bh, _) = self.halves(y)?;
        let hw = w - 64;
        let p = &mut self.pool;
        let (lo, hi) = match o {
            Op::And | Op::Or | Op::Xor => (p.bin(o, 64, al, bl), p.bin(o, hw, ah, bh)),
            Op::Add => {
                let lo = p.bin(Op::Add, 64, al, bl);
                let c = p.bin(Op::Ult, 64, lo, al);
                let c = if hw > 1 { p.zext(c, hw) } else { c };
                let hi = p.bin(Op::Add, hw, ah, bh);
                (lo, p.bin(Op::Add, hw, hi, c))
            }
            Op::Sub => {
                let lo = p.bin(Op::Sub, 64, al, bl);
                let c = p.bin(Op::Ult, 64, al, bl);
                let c = if hw > 1 { p.zext(c, hw) } else { c };
                let hi = p.bin(Op::Sub, hw, ah, bh);
                (lo, p.bin(Op::Sub, hw, hi, c))
            }
            Op::Mul if w == 128 => {
                let half = |p: &mut Pool, e: E, at: u32| {
                    let x = p.extract(e, at, 32);
                    p.zext(x, 64)
                };
                let (a0, a1, b0, b1) = (half(p, al, 0), half(p, al, 32), half(p, bl, 0), half(p, bl, 32));
                let (k32, m32) = (p.konst(32, 64), p.konst(0xffff_ffff, 64));
                let p00 = p.bin(Op::Mul, 64, a0, b0);
                let p01 = p.bin(Op::Mul, 64, a0, b1);
                let p10 = p.bin(Op::Mul, 64, a1, b0);
                let p11 = p.bin(Op::Mul, 64, a1, b1);
                let t = p.bin(Op::LShr, 64, p00, k32);
                let u = p.bin(Op::And, 64, p01, m32);
                let v = p.bin(Op::And, 64, p10, m32);
                let t = p.bin(Op::Add, 64, t, u);
                let mid = p.bin(Op::Add, 64, t, v);
                let lo = p.bin(Op::Mul, 64, al, bl);
                let c = p.bin(Op::LShr, 64, mid, k32);
                let u = p.bin(Op::LShr, 64, p01, k32);
                let v = p.bin(Op::LShr, 64, p10, k32);
                let h = p.bin(Op::Add, 64, p11, c);
                let h = p.bin(Op::Add, 64, h, u);
                let h = p.bin(Op::Add, 64, h, v);
                let x = p.bin(Op::Mul, 64, al, bh);
                let y = p.bin(Op::Mul, 64, ah, bl);
                let h = p.bin(Op::Add, 64, h, x);
                (lo, p.bin(Op::Add, 64, h, y))
            }
            Op::Shl | Op::LShr | Op::AShr => {
                let mut hi = if hw == 64 {
                    ah
                } else if o == Op::AShr {
                    p.sext(ah, 64)
                } else {
                    p.zext(ah, 64)
                };
                let mut lo = al;
                if let Some(k) = p.is_const(bl) {
                    (lo, hi) = self.wide_shift(o, lo, hi, k.min(127));
                } else {
                    // over-long shifts are poison
                    for j in 0..7 {
                        let b = self.pool.extract(bl, j, 1);
                        let (l, h) = self.wide_shift(o, lo, hi, 1 << j);
                        lo = self.pool.ite(b, l, lo);
                        hi = self.pool.ite(b, h, hi);
                    }
                }
                (lo, if hw < 64 { self.pool.extract(hi, 0, hw) } else { hi })
            }
            _ => return err("symbolic wide operation"),
        };
        Ok(self.from_halves(lo, hi, w))
    }
    fn wide_cmp(&mut self, o: Op, w: u32, x: &Val, y: &Val) -> R<E> {
        let (al, ah, _) = self.halves(x)?;
        let (bl, bh, _) = self.halves(y)?;
        let hw = w - 64;
        let p = &mut self.pool;
        let same = p.bin(Op::Eq, hw, ah, bh);
        if o == Op::Eq {
            let l = p.bin(Op::Eq, 64, al, bl);
            return Ok(p.bin(Op::And, 1, same, l));
        }
        let (oh, ol) = match o {
            Op::Ult => (Op::Ult, Op::Ult),
            Op::Ule => (Op::Ult, Op::Ule),
            Op::Slt => (Op::Slt, Op::Ult),
            Op::Sle => (Op::Slt, Op::Ule),
            _ => return err("wide compare"),
        };
        let h = p.bin(oh, hw, ah, bh);
        let l = p.bin(ol, 64, al, bl);
        Ok(p.ite(same, l, h))
    }

    // ------------------------------------------------------------ constraints
    fn know(&mut self, e: E, v: bool) {
        if self.known.insert(e, v).is_none() {
            self.trail.push(e);
        }
        let n = self.pool.nodes[e as usize];
        if n.op == Op::Xor && n.w == 1 && self.pool.is_const(n.b) == Some(1) {
            if self.known.insert(n.a, !v).is_none() {
                self.trail.push(n.a);
            }
        } else if n.w == 1 {
            let ne = self.pool.not1(e);
            if self.known.insert(ne, !v).is_none() {
                self.trail.push(ne);
            }
        }
    }
    fn add_con(&mut self, e: E) {
        if self.pool.is_const(e) == Some(1) || self.known.get(&e) == Some(&true) {
            return;
        }
        let n = self.pool.nodes[e as usize];
        if n.op == Op::And && n.w == 1 {
            self.add_con(n.a);
            self.add_con(n.b);
            self.know(e, true);
            return;
        }
        self.cons.push(e);
        self.know(e, true);
    }
    fn apply_model(&mut self, m: &[(u32, u64)]) {
        for &(v, x) in m {
            self.model[v as usize] = x;
        }
    }
    fn eval(&mut self, e: E) -> u64 {
        let m = std::mem::take(&mut self.model);
        let r = self.pool.eval(e, &m);
        self.model = m;
        r
    }
    /// solver: is `cond` satisfiable under the path condition?
    fn sat(&mut self, cond: E) -> R<Option<Rc<Vec<(u32, u64)>>>> {
        if let Some(k) = self.pool.is_const(cond) {
            return Ok(if k == 1 { Some(Rc::new(vec![])) } else { None });
        }
        match self.sol.check(&self.pool, &self.cons, cond) {
            Ok(Ans::Sat(m)) => Ok(Some(m)),
            Ok(Ans::Unsat) => Ok(None),
            Err(e) => err(e),
        }
    }
    fn push_choice(&mut self, cond: E, m: &[(u32, u64)]) {
        let mut model = self.model.clone();
        for &(v, x) in m {
            model[v as usize] = x;
        }
        let max_sp = self.choices.last().map(|c| c.max_sp).unwrap_or(0).max(self.mem.sp);
        self.choices.push(Choice {
            cur: self.cur.clone(),
            stack: self.stack.clone(),
            sp: self.mem.sp,
            hp: self.mem.hp,
            max_sp,
            undo: self.mem.undo.len(),
            ncons: self.cons.len(),
            ntrail: self.trail.len(),
            cond,
            model,
            steps: self.steps,
            nout: self.out.len(),
            ncovers: self.path_covers.len(),
            allow_panic: self.allow_panic,
        });
        self.mem.log_sp = max_sp;
        self.mem.log_hp = self.mem.hp;
        self.mem.logging = true;
    }
    fn reset_log(&mut self) {
        let b = self.base.as_ref();
        let (bsp, bhp) = b.map(|b| (b.sp, b.hp)).unwrap_or((0, 0));
        match self.choices.last() {
            Some(c) => {
                self.mem.log_sp = c.max_sp.max(bsp);
                self.mem.log_hp = c.hp.max(bhp);
            }
            None => {
                self.mem.log_sp = bsp;
                self.mem.log_hp = bhp;
            }
        }
        self.mem.logging = b.is_some() || !self.choices.is_empty();
    }
    /// resume the most recent choice point; false when none is left
    pub fn backtrack(&mut self) -> bool {
        let c = match self.choices.pop() {
            Some(c) => c,
            None => return false,
        };
        self.mem.rollback(c.undo);
        self.mem.sp = c.sp;
        self.mem.hp = c.hp;
        self.cur = c.cur;
        self.stack = c.stack;
        self.cons.truncate(c.ncons);
        for e in self.trail.drain(c.ntrail..) {
            self.known.remove(&e);
        }
        self.model = c.model;
        self.total_steps += self.steps.saturating_sub(c.steps);
        self.steps = c.steps;
        self.out.truncate(c.nout);
        self.path_covers.truncate(c.ncovers);
        self.allow_panic = c.allow_panic;
        self.reset_log();
        self.add_con(c.cond);
        true
    }
    /// hand the oldest choice point over to another worker
    pub fn donate(&mut self) -> Option<Prefix> {
        if self.choices.len() < 2 {
            return None;
        }
        let c = self.choices.remove(0);
        let mut conds: Vec<E> = self.cons[..c.ncons].to_vec();
        conds.push(c.cond);
        let mut map: FxMap<E, u32> = FxMap::default();
        let mut nodes = vec![];
        fn rec(p: &Pool, e: E, map: &mut FxMap<E, u32>, out: &mut Vec<Node>) -> u32 {
            if let Some(&i) = map.get(&e) {
                return i;
            }
            let mut n = p.nodes[e as usize];
            match n.op {
                Op::Const | Op::Var => {}
                Op::ZExt | Op::SExt | Op::Extract => n.a = rec(p, n.a, map, out),
                Op::Ite => {
                    n.a = rec(p, n.a, map, out);
                    n.b = rec(p, n.b, map, out);
                    n.c = rec(p, n.c, map, out);
                }
                _ => {
                    n.a = rec(p, n.a, map, out);
                    n.b = rec(p, n.b, map, out);
                }
            }
            let i = out.len() as u32;
            out.push(n);
            map.insert(e, i);
            i
        }
        let conds = conds.iter().map(|&e| rec(&self.pool, e, &mut map, &mut nodes)).collect();
        Some(Prefix { nodes, conds, model: c.model })
    }
    fn import(&mut self, p: &Prefix) {
        let mut ids: Vec<E> = Vec::with_capacity(p.nodes.len());
        for n in &p.nodes {
            let w = n.w as u32;
            let g = |i: E| ids[i as usize];
            let e = match n.op {
                Op::Const => self.pool.konst(n.k, w),
                Op::Var => self.pool.var(n.k as u32, w),
                Op::ZExt => {
                    let a = g(n.a);
                    self.pool.zext(a, w)
                }
                Op::SExt => {
                    let a = g(n.a);
                    self.pool.sext(a, w)
                }
                Op::Extract => {
                    let a = g(n.a);
                    self.pool.extract(a, n.k as u32, w)
                }
                Op::Ite => {
                    let (a, b, c) = (g(n.a), g(n.b), g(n.c));
                    self.pool.ite(a, b, c)
                }
                Op::Concat => {
                    let (a, b) = (g(n.a), g(n.b));
                    self.pool.concat(a, b)
                }
                _ => {
                    let (a, b) = (g(n.a), g(n.b));
                    let ow = self.pool.w(a);
                    self.pool.bin(n.op, ow, a, b)
                }
            };
            ids.push(e);
        }
        for &c in &p.conds {
            let e = ids[c as usize];
            self.add_con(e);
        }
        self.model = p.model.clone();
    }
    /// Decide a 1-bit condition, forking when both outcomes are feasible.
    fn decide(&mut self, v: &Val) -> R<bool> {
        let e = match v {
            Val::C(x) => return Ok(*x & 1 == 1),
            Val::S(e) => *e,
            _ => return err("decide: not a scalar"),
        };
        if let Some(&b) = self.known.get(&e) {
            return Ok(b);
        }
        let side = self.eval(e) == 1;
        let ne = self.pool.not1(e);
        let (mine, other) = if side { (e, ne) } else { (ne, e) };
        match self.sat(other)? {
            None => {
                self.know(e, side);
            }
            Some(m) => {
                self.push_choice(other, &m);
                self.add_con(mine);
            }
        }
        Ok(side)
    }
    /// Concretise a scalar, forking over its feasible values.
    fn conc(&mut self, v: &Val, w: u32) -> R<u64> {
        let e = match v {
            Val::C(x) => return Ok(*x),
            Val::S(e) => *e,
            _ => return err("conc: not a scalar"),
        };
        let k = self.eval(e);
        let ke = self.pool.konst(k, w);
        let eq = self.pool.bin(Op::Eq, w, e, ke);
        if self.pool.is_const(eq) == Some(1) || self.known.get(&eq) == Some(&true) {
            return Ok(k);
        }
        let ne = self.pool.not1(eq);
        match self.sat(ne)? {
            None => self.know(eq, true),
            Some(m) => {
                self.push_choice(ne, &m);
                self.add_con(eq);
            }
        }
        Ok(k)
    }
    /// All feasible values of a scalar (at most `max`), without forking.
    fn values(&mut self, e: E, max: usize) -> R<Option<Vec<u64>>> {
        let w = self.pool.w(e);
        let mut out = vec![];
        let n0 = self.cons.len();
        let k0 = self.eval(e);
        out.push(k0);
        let mut cur = k0;
        loop {
            let ke = self.pool.konst(cur, w);
            let eq = self.pool.bin(Op::Eq, w, e, ke);
            let ne = self.pool.not1(eq);
            if self.pool.is_const(ne) == Some(0) {
                break;
            }
            // ask for yet another value
            let mut cond = ne;
            for &k in &out[..out.len() - 1] {
                let kk = self.pool.konst(k, w);
                let q = self.pool.bin(Op::Eq, w, e, kk);
                let nq = self.pool.not1(q);
                cond = self.pool.bin(Op::And, 1, cond, nq);
            }
            match self.sat(cond)? {
                None => break,
                Some(m) => {
                    let mut md = self.model.clone();
                    for &(v, x) in m.iter() {
                        md[v as usize] = x;
                    }
                    cur = self.pool.eval(e, &md);
                    out.push(cur);
                    if out.len() > max {
                        self.cons.truncate(n0);
                        return Ok(None);
                    }
                }
            }
        }
        self.cons.truncate(n0);
        out.sort_unstable();
        Ok(Some(out))
    }

    // ------------------------------------------------------------ memory
    fn load_scalar(&mut self, a: u64, n: u64, w: u32) -> R<Val> {
        if !self.mem.valid(a, n) {
            return err(format!("invalid load at {:#x}+{}", a, n));
        }
        if !self.mem.has_sym(a, n) {
            return Ok(Val::C(self.mem.read(a, n) & mask(w)));
        }
        let mut any = false;
        for i in 0..n {
            if let Byte::S(_) = self.mem.get(a + i) {
                any = true;
                break;
            }
        }
        if !any {
            return Ok(Val::C(self.mem.read(a, n) & mask(w)));
        }
        let mut e = 0;
        for i in (0..n).rev() {
            let b = match self.mem.get(a + i) {
                Byte::C(x) => self.pool.konst(x as u64, 8),
                Byte::S(s) => s,
            };
            e = if i == n - 1 { b } else { self.pool.concat(e, b) };
        }
        if (n * 8) as u32 > w {
            e = self.pool.extract(e, 0, w);
        }
        Ok(self.from_e(e))
    }
    fn load_at(&mut self, a: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(w) if *w > 64 => {
                let n = t.store_size();
                let lo = self.load_scalar(a, 8, 64)?;
                let hi = self.load_scalar(a + 8, n - 8, ((n - 8) * 8) as u32)?;
                match (lo, hi) {
                    (Val::C(l), Val::C(h)) => {
                        let v = (h as u128) << 64 | l as u128;
                        let m = if *w >= 128 { !0 } else { (1u128 << *w) - 1 };
                        Ok(Val::W(Arc::new((v & m, *w))))
                    }
                    (lo, hi) => {
                        let l = self.to_e(&lo, 64)?;
                        let mut h = self.to_e(&hi, ((n - 8) * 8) as u32)?;
                        if *w - 64 < ((n - 8) * 8) as u32 {
                            h = self.pool.extract(h, 0, *w - 64);
                        }
                        Ok(self.from_halves(l, h, *w))
                    }
                }
            }
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.load_scalar(a, t.store_size(), t.w()),
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (i, ft) in f.iter().enumerate() {
                    v.push(self.load_at(a + t.field_off(i), ft)?);
                }
                Ok(Val::Agg(Arc::new(v)))
            }
            Ty::Array(n, e) | Ty::Vector(n, e) => {
                if let Ty::Int(w) = **e {
                    if w < 8 && matches!(t, Ty::Vector(..)) {
                        return err("load of a sub-byte vector");
                    }
                }
                let sz = e.size();
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load_at(a + i * sz, e)?);
                }
                Ok(Val::Agg(Arc::new(v)))
            }
            _ => err(format!("load of {:?}", t)),
        }
    }
    fn store_at(&mut self, a: u64, v: &Val, t: &Ty) -> R<()> {
        match t {
            Ty::Struct(f, _) => {
                if let Val::Agg(x) = v {
                    for (i, ft) in f.iter().enumerate() {
                        self.store_at(a + t.field_off(i), &x[i], ft)?;
                    }
                    return Ok(());
                }
                err("store: aggregate expected")
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => {
                if let Val::Agg(x) = v {
                    let sz = e.size();
                    for (i, y) in x.iter().enumerate() {
                        self.store_at(a + i as u64 * sz, y, e)?;
                    }
                    return Ok(());
                }
                err("store: vector expected")
            }
            _ => {
                let n = t.store_size();
                if !self.mem.valid(a, n) {
                    return err(format!("invalid store at {:#x}+{}", a, n));
                }
                match v {
                    Val::C(x) => self.mem.write(a, n, *x),
                    Val::S(e) => {
                        let w = t.w();
                        let mut e = *e;
                        if w < (n * 8) as u32 {
                            e = self.pool.zext(e, (n * 8) as u32);
                        }
                        for i in 0..n {
                            let b = self.pool.extract(e, (8 * i) as u32, 8);
                            match self.pool.is_const(b) {
                                Some(k) => self.mem.put(a + i, Byte::C(k as u8)),
                                None => self.mem.put(a + i, Byte::S(b)),
                            }
                        }
                    }
                    Val::W(x) => {
                        self.mem.write(a, 8, x.0 as u64);
                        let hi = (x.0 >> 64) as u64;
                        for i in 8..n {
                            self.mem.write(a + i, 1, (hi >> (8 * (i - 8))) & 0xff);
                        }
                    }
                    Val::WS(x) => {
                        let (lo, mut hi, w) = **x;
                        if (n - 8) as u32 * 8 > w - 64 {
                            hi = self.pool.zext(hi, (n - 8) as u32 * 8);
                        }
                        for i in 0..n {
                            let b = if i < 8 { self.pool.extract(lo, 8 * i as u32, 8) } else { self.pool.extract(hi, 8 * (i - 8) as u32, 8) };
                            match self.pool.is_const(b) {
                                Some(k) => self.mem.put(a + i, Byte::C(k as u8)),
                                None => self.mem.put(a + i, Byte::S(b)),
                            }
                        }
                    }
                    _ => return err("store: scalar expected"),
                }
                Ok(())
            }
        }
    }
    pub fn malloc(&mut self, n: u64, align: u64) -> R<u64> {
        let al = align.max(16);
        let a = (self.mem.hp + 16 + al - 1) / al * al;
        if n > HEAP_END || a + n + 64 > HEAP_END {
            return err(format!("heap exhausted ({} bytes requested)", n));
        }
        let old = self.mem.hp;
        self.mem.hp = a + n;
        self.mem.fresh(old, a + n - old);
        // header: size (the area lies above every logged range)
        self.mem.write(a - 8, 8, n);
        Ok(a)
    }

    // ------------------------------------------------------------ running
    pub fn enter(&mut self, f: u32, args: Vec<Val>) -> R<()> {
        let fun = &self.m.funcs[f as usize];
        if !fun.defined {
            return err(format!("call of undefined function {}", fun.name));
        }
        self.entered[f as usize] = true;
        let mut regs = Vec::with_capacity(fun.nregs as usize);
        regs.extend(args);
        regs.truncate(fun.nparams as usize);
        regs.resize(fun.nregs as usize, Val::C(0));
        let sp0 = self.mem.sp;
        for (i, bv) in fun.byval.iter().enumerate() {
            if let Some(n) = bv {
                let src = match &regs[i] {
                    Val::C(a) => *a,
                    _ => return err("symbolic byval"),
                };
                let a = (self.mem.sp + 15) / 16 * 16;
                self.mem.sp = a + n;
                self.mem.copy(a, src, *n);
                regs[i] = Val::C(a);
            }
        }
        if self.mem.sp > STACK_END - 0x10000 {
            return Err(Stop::Abort("stack overflow".into()));
        }
        self.cur = Frame { f, b: 0, ip: 0, regs, sp0 };
        Ok(())
    }
    /// run `name` concretely once, then make the resulting state the base of all explorations
    pub fn init(&mut self, name: &str) -> Result<(), String> {
        let f = *self.m.fidx.get(name).ok_or_else(|| format!("no function {}", name))?;
        self.stack.clear();
        if self.enter(f, vec![]).is_err() {
            return Err("init".into());
        }
        match self.run() {
            Stop::End => {}
            Stop::Panic(s) => return Err(format!("init panicked: {}", s)),
            Stop::Error(s) => return Err(format!("init: {}", s)),
            Stop::Abort(s) => return Err(format!("init aborted: {}", s)),
            _ => return Err("init did not end".into()),
        }
        if !self.choices.is_empty() {
            return Err("init forked".into());
        }
        self.set_base();
        Ok(())
    }
    pub fn set_base(&mut self) {
        if self.errno == 0 {
            self.errno = self.malloc(8, 16).ok().unwrap_or(0);
        }
        self.mem.undo.clear();
        self.base = Some(Base { sp: self.mem.sp, hp: self.mem.hp, undo: 0 });
        self.reset_log();
    }
    pub fn start(&mut self, f: u32, param: u64, pre: Option<&Prefix>) -> Result<(), String> {
        // back to base
        self.choices.clear();
        let b = self.base.as_ref().unwrap();
        let (u, sp, hp) = (b.undo, b.sp, b.hp);
        self.mem.rollback(u);
        self.mem.sp = sp;
        self.mem.hp = hp;
        self.cons.clear();
        self.known.clear();
        self.trail.clear();
        self.model.iter_mut().for_each(|x| *x = 0);
        self.steps = 0;
        self.out.clear();
        self.path_covers.clear();
        self.param = param;
        self.allow_panic = false;
        self.nvars_seen = 0;
        self.reset_log();
        if self.pool.nodes.len() > 4_000_000 {
            return Err("expression pool too large".into());
        }
        if let Some(p) = pre {
            self.import(p);
        }
        self.stack.clear();
        self.enter(f, vec![]).map_err(|_| "enter".to_string())
    }
    pub fn end_path(&mut self) {
        for c in &self.path_covers {
            *self.covers.entry(*c).or_insert(0) += 1;
        }
    }
    pub fn values_of_model(&self) -> Vec<(u32, u64)> {
        let mut seen = self.nvars_seen;
        for c in &self.cons {
            seen |= self.pool.vars[*c as usize];
        }
        (0..128u32).filter(|i| seen >> i & 1 == 1).map(|i| (i, self.model[i as usize])).collect()
    }
    pub fn report(&mut self, kind: &str, code: String) {
        let values = self.values_of_model();
        self.violations.push(Violation { kind: kind.into(), code, values });
    }
    pub fn run(&mut self) -> Stop {
        self.ended_by_panic = false;
        loop {
            match self.block() {
                Ok(()) => {}
                Err(Stop::Panic(_)) if self.allow_panic => {
                    self.ended_by_panic = true;
                    return Stop::End;
                }
                Err(Stop::Error(s)) => {
                    let mut tr = self.m.funcs[self.cur.f as usize].name.clone();
                    for f in self.stack.iter().rev().take(8) {
                        tr.push_str(" <- ");
                        tr.push_str(&self.m.funcs[f.f as usize].name);
                    }
                    let ins = format!("{:?}", self.m.funcs[self.cur.f as usize].blocks[self.cur.b as usize].get(self.cur.ip as usize));
                    return Stop::Error(format!("{} at b{} i{} {} in {}", s, self.cur.b, self.cur.ip, &ins[..ins.len().min(200)], tr));
                }
                Err(s) => return s,
            }
        }
    }
    #[inline]
    fn take(&mut self, e: usize) {
        let m = self.m;
        let ed = &m.funcs[self.cur.f as usize].edges[e];
        match ed.moves.len() {
            0 => {}
            1 => {
                let v = self.ev(&ed.moves[0].1);
                self.set(ed.moves[0].0, v);
            }
            _ => {
                let vals: Vec<Val> = ed.moves.iter().map(|x| self.ev(&x.1)).collect();
                for ((d, _), v) in ed.moves.iter().zip(vals) {
                    self.set(*d, v);
                }
            }
        }
        self.cur.b = ed.to;
        self.cur.ip = 0;
    }
    fn ret(&mut self, v: Option<Val>) -> R<()> {
        self.mem.sp = self.cur.sp0;
        let fr = match self.stack.pop() {
            None => return Err(Stop::End),
            Some(f) => f,
        };
        self.cur = match Rc::try_unwrap(fr) {
            Ok(f) => f,
            Err(rc) => (*rc).clone(),
        };
        let m = self.m;
        let ins = &m.funcs[self.cur.f as usize].blocks[self.cur.b as usize][self.cur.ip as usize];
        if let I::Call(dst, _, _, _, normal) = ins {
            if let (Some(d), Some(v)) = (dst, v) {
                self.set(*d, v);
            }
            match normal {
                Some(e) => self.take(*e),
                None => self.cur.ip += 1,
            }
            Ok(())
        } else {
            err("return to a non-call")
        }
    }
    /// execute instructions of the current block until control leaves it
    fn block(&mut self) -> R<()> {
        let m = self.m;
        let fun = &m.funcs[self.cur.f as usize];
        let blk = &fun.blocks[self.cur.b as usize];
        loop {
            self.steps += 1;
            if self.steps > self.step_limit {
                return Err(Stop::Limit);
            }
            let ins = &blk[self.cur.ip as usize];
            match ins {
                I::Bin(op, w, d, a, b) => {
                    let (x, y) = (self.ev(a), self.ev(b));
                    let r = self.bin(*op, *w, &x, &y)?;
                    self.set(*d, r);
                }
                I::Cmp(p, w, d, a, b) => {
                    let (x, y) = (self.ev(a), self.ev(b));
                    let r = self.cmp(*p, *w, &x, &y)?;
                    self.set(*d, r);
                }
                I::Load(d, t, p) => {
                    let pv = self.ev(p);
                    let r = match pv {
                        Val::C(a) => self.load_at(a, t)?,
                        Val::S(e) => self.load_sym(e, t)?,
                        _ => return err("load address"),
                    };
                    self.set(*d, r);
                }
                I::Store(t, v, p) => {
                    let pv = self.ev(p);
                    let a = self.conc(&pv, 64)?;
                    let vv = self.ev(v);
                    self.store_at(a, &vv, t)?;
                }
                I::Gep(d, base, off, idx) => {
                    let b = self.ev(base);
                    let mut k = *off as u64;
                    let mut sym: Option<E> = None;
                    match b {
                        Val::C(x) => k = k.wrapping_add(x),
                        Val::S(e) => sym = Some(e),
                        _ => return err("gep base"),
                    }
                    for (o, sc, w) in idx {
                        match self.ev(o) {
                            Val::C(x) => k = k.wrapping_add((sext(x, *w).wrapping_mul(*sc)) as u64),
                            Val::S(e) => {
                                let x = self.pool.sext(e, 64);
                                let s = self.pool.konst(*sc as u64, 64);
                                let y = self.pool.bin(Op::Mul, 64, x, s);
                                sym = Some(match sym {
                                    None => y,
                                    Some(z) => self.pool.bin(Op::Add, 64, z, y),
                                });
                            }
                            _ => return err("gep index"),
                        }
                    }
                    let r = match sym {
                        None => Val::C(k),
                        Some(e) => {
                            let kk = self.pool.konst(k, 64);
                            let x = self.pool.bin(Op::Add, 64, e, kk);
                            self.from_e(x)
                        }
                    };
                    self.set(*d, r);
                }
                I::Cast(op, fw, tw, d, a) => {
                    let x = self.ev(a);
                    let r = self.cast(*op, *fw, *tw, &x)?;
                    self.set(*d, r);
                }
                I::Copy(d, a) => {
                    let x = self.ev(a);
                    self.set(*d, x);
                }
                I::Br(e) => {
                    self.take(*e);
                    return Ok(());
                }
                I::CondBr(c, a, b) => {
                    let v = self.ev(c);
                    let s = self.decide(&v)?;
                    self.take(if s { *a } else { *b });
                    return Ok(());
                }
                I::Switch(v, w, de, cases, map) => {
                    let x = self.ev(v);
                    let e = self.switch(&x, *w, *de, cases, map)?;
                    self.take(e);
                    return Ok(());
                }
                I::Ret(v) => {
                    let x = v.as_ref().map(|o| self.ev(o));
                    return self.ret(x);
                }
                I::Call(dst, callee, args, rt, normal) => {
                    let f = match callee {
                        Callee::Func(f) => *f,
                        Callee::Ptr(o) => {
                            let pv = self.ev(o);
                            let a = self.conc(&pv, 64)?;
                            match m.faddr.get(&a) {
                                Some(f) => *f,
                                None => return err(format!("call of bad function pointer {:#x}", a)),
                            }
                        }
                    };
                    let av: Vec<Val> = args.iter().map(|o| self.ev(o)).collect();
                    if self.ext[f as usize] != Ext::None {
                        let r = self.external(f, av, rt)?;
                        if let (Some(d), Some(v)) = (dst, r) {
                            self.set(*d, v);
                        }
                        match normal {
                            Some(e) => {
                                self.take(*e);
                                return Ok(());
                            }
                            None => {
                                self.cur.ip += 1;
                                continue;
                            }
                        }
                    }
                    let old = std::mem::replace(&mut self.cur, Frame { f: 0, b: 0, ip: 0, regs: vec![], sp0: 0 });
                    self.stack.push(Rc::new(old));
                    if self.stack.len() > 4000 {
                        return Err(Stop::Abort("call depth".into()));
                    }
                    if let Err(e) = self.enter(f, av) {
                        // restore for diagnostics
                        if let Some(fr) = self.stack.pop() {
                            self.cur = (*fr).clone();
                        }
                        return Err(e);
                    }
                    return Ok(());
                }
                I::Alloca(d, sz, al, cnt) => {
                    let cv = self.ev(cnt);
                    let n = self.conc(&cv, 64)?;
                    let a = (self.mem.sp + al - 1) / al * al;
                    self.mem.sp = a + sz * n;
                    if self.mem.sp > STACK_END - 0x10000 {
                        return Err(Stop::Abort("stack overflow".into()));
                    }
                    self.set(*d, Val::C(a));
                }
                I::Select(d, c, a, b, t, vec) => {
                    let cv = self.ev(c);
                    let r = if *vec {
                        let (x, y) = (self.ev(a), self.ev(b));
                        match (cv, x, y) {
                            (Val::Agg(cs), Val::Agg(xs), Val::Agg(ys)) => {
                                let et = t.field(0).clone();
                                let mut o = vec![];
                                for i in 0..cs.len() {
                                    o.push(self.select(&cs[i], &xs[i], &ys[i], et.w())?);
                                }
                                Val::Agg(Arc::new(o))
                            }
                            _ => return err("vector select"),
                        }
                    } else {
                        match cv {
                            Val::C(k) => {
                                if k & 1 == 1 {
                                    self.ev(a)
                                } else {
                                    self.ev(b)
                                }
                            }
                            cv => {
                                let (x, y) = (self.ev(a), self.ev(b));
                                match (&x, &y) {
                                    (Val::C(_) | Val::S(_), Val::C(_) | Val::S(_)) => self.select(&cv, &x, &y, t.w())?,
                                    _ => {
                                        if self.decide(&cv)? {
                                            x
                                        } else {
                                            y
                                        }
                                    }
                                }
                            }
                        }
                    };
                    self.set(*d, r);
                }
                I::ExtractValue(d, a, path) => {
                    let mut v = self.ev(a);
                    for &i in path {
                        v = match v {
                            Val::Agg(x) => x[i as usize].clone(),
                            _ => return err("extractvalue"),
                        };
                    }
                    self.set(*d, v);
                }
                I::InsertValue(d, a, v, path) => {
                    fn ins(a: &Val, v: Val, p: &[u32]) -> Option<Val> {
                        if p.is_empty() {
                            return Some(v);
                        }
                        match a {
                            Val::Agg(x) => {
                                let mut y = (**x).clone();
                                let i = p[0] as usize;
                                y[i] = ins(&y[i], v, &p[1..])?;
                                Some(Val::Agg(Arc::new(y)))
                            }
                            _ => None,
                        }
                    }
                    let (x, y) = (self.ev(a), self.ev(v));
                    let r = match ins(&x, y, path) {
                        Some(r) => r,
                        None => return err("insertvalue"),
                    };
                    self.set(*d, r);
                }
                I::BinV(op, w, _n, d, a, b) => {
                    let (x, y) = (self.ev(a), self.ev(b));
                    let r = match (x, y) {
                        (Val::Agg(x), Val::Agg(y)) => {
                            let mut o = Vec::with_capacity(x.len());
                            for i in 0..x.len() {
                                o.push(self.bin(*op, *w, &x[i], &y[i])?);
                            }
                            Val::Agg(Arc::new(o))
                        }
                        _ => return err("vector operands"),
                    };
                    self.set(*d, r);
                }
                I::CmpV(p, w, _n, d, a, b) => {
                    let (x, y) = (self.ev(a), self.ev(b));
                    let r = match (x, y) {
                        (Val::Agg(x), Val::Agg(y)) => {
                            let mut o = Vec::with_capacity(x.len());
                            for i in 0..x.len() {
                                o.push(self.cmp(*p, *w, &x[i], &y[i])?);
                            }
                            Val::Agg(Arc::new(o))
                        }
                        _ => return err("vector operands"),
                    };
                    self.set(*d, r);
                }
                I::CastV(op, ft, tt, d, a) => {
                    let x = self.ev(a);
                    let r = self.cast_vec(*op, ft, tt, &x)?;
                    self.set(*d, r);
                }
                I::ExtractElem(d, a, ix) => {
                    let iv = self.ev(ix);
                    let i = self.conc(&iv, 64)?;
                    let v = match self.ev(a) {
                        Val::Agg(x) => x[i as usize].clone(),
                        _ => return err("extractelement"),
                    };
                    self.set(*d, v);
                }
                I::InsertElem(d, a, v, ix, n) => {
                    let iv = self.ev(ix);
                    let i = self.conc(&iv, 64)?;
                    let vv = self.ev(v);
                    let mut x = match self.ev(a) {
                        Val::Agg(x) => (*x).clone(),
                        _ => vec![Val::C(0); *n as usize],
                    };
                    x[i as usize] = vv;
                    self.set(*d, Val::Agg(Arc::new(x)));
                }
                I::Shuffle(d, a, b, idx, n) => {
                    let (x, y) = (self.ev(a), self.ev(b));
                    let get = |v: &Val, i: usize| -> Val {
                        match v {
                            Val::Agg(x) => x[i].clone(),
                            _ => Val::C(0),
                        }
                    };
                    let o: Vec<Val> = idx
                        .iter()
                        .map(|&i| if (i as u64) < *n { get(&x, i as usize) } else { get(&y, (i as u64 - n) as usize) })
                        .collect();
                    self.set(*d, Val::Agg(Arc::new(o)));
                }
                I::Rmw(d, op, t, p, v) => {
                    let pv = self.ev(p);
                    let a = self.conc(&pv, 64)?;
                    let old = self.load_at(a, t)?;
                    let x = self.ev(v);
                    let w = t.w();
                    let nv = match op.as_str() {
                        "xchg" => x,
                        "add" => self.bin(BinOp::Add, w, &old, &x)?,
                        "sub" => self.bin(BinOp::Sub, w, &old, &x)?,
                        "and" => self.bin(BinOp::And, w, &old, &x)?,
                        "or" => self.bin(BinOp::Or, w, &old, &x)?,
                        "xor" => self.bin(BinOp::Xor, w, &old, &x)?,
                        _ => return err(format!("atomicrmw {}", op)),
                    };
                    self.store_at(a, &nv, t)?;
                    self.set(*d, old);
                }
                I::CmpXchg(d, t, p, c, n) => {
                    let pv = self.ev(p);
                    let a = self.conc(&pv, 64)?;
                    let old = self.load_at(a, t)?;
                    let cv = self.ev(c);
                    let eq = self.cmp(Pred::Eq, t.w(), &old, &cv)?;
                    let ok = self.decide(&eq)?;
                    if ok {
                        let nv = self.ev(n);
                        self.store_at(a, &nv, t)?;
                    }
                    self.set(*d, Val::Agg(Arc::new(vec![old, Val::C(ok as u64)])));
                }
                I::Nop | I::LandingPad => {}
                I::Unreachable => return err("unreachable executed"),
                I::Unsupported(s) => return err(format!("unsupported instruction {}", s)),
            }
            self.cur.ip += 1;
        }
    }
    fn select(&mut self, c: &Val, a: &Val, b: &Val, w: u32) -> R<Val> {
        match c {
            Val::C(k) => Ok(if k & 1 == 1 { a.clone() } else { b.clone() }),
            Val::S(e) => {
                if let Some(&k) = self.known.get(e) {
                    return Ok(if k { a.clone() } else { b.clone() });
                }
                if w > 64 {
                    let (al, ah, _) = self.halves(a)?;
                    let (bl, bh, _) = self.halves(b)?;
                    let lo = self.pool.ite(*e, al, bl);
                    let hi = self.pool.ite(*e, ah, bh);
                    return Ok(self.from_halves(lo, hi, w));
                }
                let x = self.to_e(a, w)?;
                let y = self.to_e(b, w)?;
                let r = self.pool.ite(*e, x, y);
                Ok(self.from_e(r))
            }
            _ => err("select condition"),
        }
    }
    fn switch(&mut self, x: &Val, w: u32, de: usize, cases: &[(u64, usize)], map: &Option<Arc<FxMap<u64, usize>>>) -> R<usize> {
        match x {
            Val::C(k) => Ok(match map {
                Some(mp) => mp.get(k).copied().unwrap_or(de),
                None => cases.iter().find(|c| c.0 == *k).map(|c| c.1).unwrap_or(de),
            }),
            Val::S(e) => {
                let k = self.eval(*e);
                let pick = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(de);
                // condition for going to `pick`
                let mut cond = self.pool.konst(if pick == de { 1 } else { 0 }, 1);
                for (ck, ce) in cases {
                    let kk = self.pool.konst(*ck, w);
                    let q = self.pool.bin(Op::Eq, w, *e, kk);
                    if pick == de {
                        if *ce != de {
                            let nq = self.pool.not1(q);
                            cond = self.pool.bin(Op::And, 1, cond, nq);
                        }
                    } else if *ce == pick {
                        cond = self.pool.bin(Op::Or, 1, cond, q);
                    }
                }
                let cv = self.from_e(cond);
                // the model satisfies cond, so decide() answers true and forks if needed
                if !self.decide(&cv)? {
                    return err("switch: inconsistent model");
                }
                Ok(pick)
            }
            _ => err("switch operand"),
        }
    }
    fn load_sym(&mut self, e: E, t: &Ty) -> R<Val> {
        if !matches!(t, Ty::Int(_) | Ty::Ptr) || t.w() > 64 {
            let a = self.conc(&Val::S(e), 64)?;
            return self.load_at(a, t);
        }
        match self.values(e, self.max_forks_addr)? {
            None => err("symbolic load address with too many values"),
            Some(vs) => {
                let w = t.w();
                // group addresses by loaded content
                let mut groups: Vec<(E, Vec<u64>)> = vec![];
                for a in vs {
                    let v = self.load_at(a, t)?;
                    let x = self.to_e(&v, w)?;
                    match groups.iter_mut().find(|g| g.0 == x) {
                        Some(g) => g.1.push(a),
                        None => groups.push((x, vec![a])),
                    }
                }
                groups.sort_by_key(|g| g.1.len());
                let (mut r, _) = groups.pop().unwrap();
                while let Some((x, addrs)) = groups.pop() {
                    let mut c = self.pool.konst(0, 1);
                    for a in addrs {
                        let k = self.pool.konst(a, 64);
                        let q = self.pool.bin(Op::Eq, 64, e, k);
                        c = self.pool.bin(Op::Or, 1, c, q);
                    }
                    r = self.pool.ite(c, x, r);
                }
                Ok(self.from_e(r))
            }
        }
    }
    fn bin(&mut self, op: BinOp, w: u32, x: &Val, y: &Val) -> R<Val> {
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::URem => Op::URem,
            BinOp::SDiv => Op::SDiv,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
        };
        match (x, y) {
            (Val::C(a), Val::C(b)) => Ok(Val::C(fold(o, w, *a, *b))),
            (Val::W(a), Val::W(b)) => {
                let m = if w >= 128 { !0u128 } else { (1u128 << w) - 1 };
                let (p, q) = (a.0, b.0);
                let r = match o {
                    Op::Add => p.wrapping_add(q),
                    Op::Sub => p.wrapping_sub(q),
                    Op::Mul => p.wrapping_mul(q),
                    Op::UDiv if q != 0 => p / q,
                    Op::URem if q != 0 => p % q,
                    Op::And => p & q,
                    Op::Or => p | q,
                    Op::Xor => p ^ q,
                    Op::Shl => p.checked_shl(q as u32).unwrap_or(0),
                    Op::LShr => p.checked_shr(q as u32).unwrap_or(0),
                    _ => return err("wide operation"),
                } & m;
                Ok(Val::W(Arc::new((r, w))))
            }
            (Val::C(_) | Val::S(_), Val::C(_) | Val::S(_)) => {
                if matches!(o, Op::Shl | Op::LShr | Op::AShr) {
                    // over-long shifts are poison in the IR; programs never rely on them
                }
                let a = self.to_e(x, w)?;
                let b = self.to_e(y, w)?;
                let r = self.pool.bin(o, w, a, b);
                Ok(self.from_e(r))
            }
            (Val::W(_) | Val::WS(_), Val::W(_) | Val::WS(_)) => self.wide_bin(o, w, x, y),
            _ => err("operands"),
        }
    }
    fn cmp(&mut self, p: Pred, w: u32, x: &Val, y: &Val) -> R<Val> {
        let (o, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
        };
        let (x, y) = if sw { (y, x) } else { (x, y) };
        match (x, y) {
            (Val::C(a), Val::C(b)) => Ok(Val::C(fold(o, w, *a, *b) ^ neg as u64)),
            (Val::W(_) | Val::WS(_), Val::W(_) | Val::WS(_)) => {
                let mut r = self.wide_cmp(o, w, x, y)?;
                if neg {
                    r = self.pool.not1(r);
                }
                if let Some(&k) = self.known.get(&r) {
                    return Ok(Val::C(k as u64));
                }
                Ok(self.from_e(r))
            }
            (Val::C(_) | Val::S(_), Val::C(_) | Val::S(_)) => {
                let a = self.to_e(x, w)?;
                let b = self.to_e(y, w)?;
                let mut r = self.pool.bin(o, w, a, b);
                if neg {
                    r = self.pool.not1(r);
                }
                if let Some(&k) = self.known.get(&r) {
                    return Ok(Val::C(k as u64));
                }
                Ok(self.from_e(r))
            }
            _ => err("compare operands"),
        }
    }
    fn cast(&mut self, op: CastOp, fw: u32, tw: u32, x: &Val) -> R<Val> {
        match x {
            Val::C(k) => {
                let v = match op {
                    CastOp::SExt => sext(*k, fw) as u64,
                    _ => *k,
                };
                if tw > 64 {
                    let v = if op == CastOp::SExt { sext(*k, fw) as i128 as u128 } else { *k as u128 };
                    let m = if tw >= 128 { !0 } else { (1u128 << tw) - 1 };
                    return Ok(Val::W(Arc::new((v & m, tw))));
                }
                Ok(Val::C(v & mask(tw)))
            }
            Val::W(v) => {
                if tw <= 64 {
                    Ok(Val::C(v.0 as u64 & mask(tw)))
                } else {
                    let m = if tw >= 128 { !0 } else { (1u128 << tw) - 1 };
                    Ok(Val::W(Arc::new((v.0 & m, tw))))
                }
            }
            Val::S(e) => {
                if tw > 64 {
                    let (lo, hi) = if op == CastOp::SExt {
                        let lo = if fw < 64 { self.pool.sext(*e, 64) } else { *e };
                        let k = self.pool.konst(63, 64);
                        let s = self.pool.bin(Op::AShr, 64, lo, k);
                        (lo, if tw < 128 { self.pool.extract(s, 0, tw - 64) } else { s })
                    } else {
                        let lo = if fw < 64 { self.pool.zext(*e, 64) } else { *e };
                        (lo, self.pool.konst(0, tw - 64))
                    };
                    return Ok(self.from_halves(lo, hi, tw));
                }
                let r = match op {
                    CastOp::Trunc => self.pool.extract(*e, 0, tw),
                    CastOp::ZExt => self.pool.zext(*e, tw),
                    CastOp::SExt => self.pool.sext(*e, tw),
                    CastOp::Bit => *e,
                };
                Ok(self.from_e(r))
            }
            Val::WS(x) => {
                let (lo, hi, w) = **x;
                if tw <= 64 {
                    let r = if tw < 64 { self.pool.extract(lo, 0, tw) } else { lo };
                    return Ok(self.from_e(r));
                }
                let hi = if tw < w {
                    self.pool.extract(hi, 0, tw - 64)
                } else if tw == w {
                    hi
                } else if op == CastOp::SExt {
                    self.pool.sext(hi, tw - 64)
                } else {
                    self.pool.zext(hi, tw - 64)
                };
                Ok(self.from_halves(lo, hi, tw))
            }
            _ => err("cast operand"),
        }
    }
    fn cast_vec(&mut self, op: CastOp, ft: &Ty, tt: &Ty, x: &Val) -> R<Val> {
        match (ft, tt) {
            (Ty::Vector(_, fe), Ty::Vector(_, te)) if op != CastOp::Bit => {
                let v = match x {
                    Val::Agg(v) => v.clone(),
                    _ => return err("vector cast"),
                };
                let mut o = vec![];
                for e in v.iter() {
                    o.push(self.cast(op, fe.w(), te.w(), e)?);
                }
                Ok(Val::Agg(Arc::new(o)))
            }
            _ => {
                // bitcast through a list of bits
                let mut bits: Vec<E> = vec![];
                let mut push = |s: &mut Self, v: &Val, w: u32| -> R<()> {
                    if let Val::W(x) = v {
                        for i in 0..w {
                            let b = s.pool.konst((x.0 >> i) as u64 & 1, 1);
                            bits.push(b);
                        }
                        return Ok(());
                    }
                    if let Val::WS(x) = v {
                        for i in 0..w {
                            let b = if i < 64 { s.pool.extract(x.0, i, 1) } else { s.pool.extract(x.1, i - 64, 1) };
                            bits.push(b);
                        }
                        return Ok(());
                    }
                    let e = s.to_e(v, w)?;
                    for i in 0..w {
                        let b = s.pool.extract(e, i, 1);
                        bits.push(b);
                    }
                    Ok(())
                };
                match (ft, x) {
                    (Ty::Vector(_, e), Val::Agg(v)) => {
                        for y in v.iter() {
                            push(self, y, e.w())?;
                        }
                    }
                    _ => push(self, x, ft.w())?,
                }
                let build = |s: &mut Self, b: &[E]| -> R<Val> {
                    let join = |s: &mut Self, b: &[E]| {
                        let mut e = b[0];
                        for x in &b[1..] {
                            e = s.pool.concat(*x, e);
                        }
                        e
                    };
                    if b.len() > 128 {
                        return err("bitcast to more than 128 bits");
                    }
                    if b.len() > 64 {
                        let (lo, hi) = (join(s, &b[..64]), join(s, &b[64..]));
                        return Ok(s.from_halves(lo, hi, b.len() as u32));
                    }
                    let e = join(s, b);
                    Ok(s.from_e(e))
                };
                match tt {
                    Ty::Vector(n, e) => {
                        let w = e.w() as usize;
                        let mut o = vec![];
                        for i in 0..*n as usize {
                            o.push(build(self, &bits[i * w..(i + 1) * w])?);
                        }
                        Ok(Val::Agg(Arc::new(o)))
                    }
                    _ => build(self, &bits),
                }
            }
        }
    }

    fn read_str(&self, a: u64, n: u64) -> String {
        let mut s = String::new();
        if n > 400 || !self.mem.valid(a, n) {
            return s;
        }
        for i in 0..n {
            if let Byte::C(b) = self.mem.get(a + i) {
                s.push(b as char);
            }
        }
        s
    }
    fn ite1(&mut self, c: E, a: u64, b: u64, w: u32) -> E {
        let x = self.pool.konst(a, w);
        let y = self.pool.konst(b, w);
        self.pool.ite(c, x, y)
    }

    fn external(&mut self, f: u32, a: Vec<Val>, rt: &Ty) -> R<Option<Val>> {
        let k = self.ext[f as usize];
        let w = rt.w();
        match k {
            Ext::Panic => {
                let name = &self.m.funcs[f as usize].name;
                let mut loc = String::new();
                // the caller location is the last pointer argument
                if let Some(Val::C(p)) = a.last() {
                    let p = *p;
                    if self.mem.valid(p, 24) && !self.mem.has_sym(p, 24) {
                        let (fp, fl) = (self.mem.read(p, 8), self.mem.read(p + 8, 8));
                        let line = self.mem.read(p + 16, 4);
                        let col = self.mem.read(p + 20, 4);
                        let s = self.read_str(fp, fl.saturating_sub(if fl > 0 && self.mem.valid(fp, fl) && self.mem.read(fp + fl - 1, 1) == 0 { 1 } else { 0 }));
                        if !s.is_empty() {
                            loc = format!("{}:{}:{}", s, line, col);
                        }
                    }
                }
                let short = name.split("17h").next().unwrap_or(name);
                Err(Stop::Panic(format!("{} {}", loc, short)))
            }
            Ext::Malloc => {
                let n = self.conc(&a[0], 64)?;
                Ok(Some(Val::C(self.malloc(n, 16)?)))
            }
            Ext::Calloc => {
                let n = self.conc(&a[0], 64)?;
                let s = self.conc(&a[1], 64)?;
                Ok(Some(Val::C(self.malloc(n.saturating_mul(s), 16)?)))
            }
            Ext::Realloc => {
                let p = self.conc(&a[0], 64)?;
                let n = self.conc(&a[1], 64)?;
                if p == 0 {
                    return Ok(Some(Val::C(self.malloc(n, 16)?)));
                }
                let old = self.mem.read(p - 8, 8);
                let q = self.malloc(n, 16)?;
                self.mem.copy(q, p, old.min(n));
                Ok(Some(Val::C(q)))
            }
            Ext::Memalign => {
                let al = self.conc(&a[1], 64)?;
                let n = self.conc(&a[2], 64)?;
                let p = self.conc(&a[0], 64)?;
                let q = self.malloc(n, al)?;
                self.mem.write(p, 8, q);
                Ok(Some(Val::C(0)))
            }
            Ext::Free => Ok(None),
            Ext::Memcpy | Ext::Memmove => {
                let n = self.conc(&a[2], 64)?;
                let d = self.conc(&a[0], 64)?;
                let s = self.conc(&a[1], 64)?;
                if n > 0 {
                    if !self.mem.valid(d, n) || !self.mem.valid(s, n) {
                        return err(format!("invalid memcpy {:#x} <- {:#x} +{}", d, s, n));
                    }
                    self.mem.copy(d, s, n);
                }
                Ok(Some(a[0].clone()))
            }
            Ext::Memset => {
                let n = self.conc(&a[2], 64)?;
                let d = self.conc(&a[0], 64)?;
                if n > 0 && !self.mem.valid(d, n) {
                    return err("invalid memset");
                }
                match &a[1] {
                    Val::C(v) => self.mem.fill(d, n, *v as u8),
                    Val::S(e) => {
                        let b = self.pool.extract(*e, 0, 8);
                        for i in 0..n {
                            self.mem.put(d + i, Byte::S(b));
                        }
                    }
                    _ => return err("memset"),
                }
                Ok(Some(a[0].clone()))
            }
            Ext::Memcmp => {
                let n = self.conc(&a[2], 64)?;
                let p = self.conc(&a[0], 64)?;
                let q = self.conc(&a[1], 64)?;
                if n > 0 && (!self.mem.valid(p, n) || !self.mem.valid(q, n)) {
                    return err("invalid memcmp");
                }
                let bcmp = self.m.funcs[f as usize].name == "bcmp";
                let mut r = self.pool.konst(0, 32);
                for i in (0..n).rev() {
                    let x = self.load_scalar(p + i, 1, 8)?;
                    let y = self.load_scalar(q + i, 1, 8)?;
                    if let (Val::C(x), Val::C(y)) = (&x, &y) {
                        if x != y {
                            r = self.pool.konst(if bcmp || x > y { 1 } else { !0 }, 32);
                        }
                        continue;
                    }
                    let x = self.to_e(&x, 8)?;
                    let y = self.to_e(&y, 8)?;
                    let eq = self.pool.bin(Op::Eq, 8, x, y);
                    let ne = if bcmp {
                        self.pool.konst(1, 32)
                    } else {
                        let lt = self.pool.bin(Op::Ult, 8, x, y);
                        self.ite1(lt, !0, 1, 32)
                    };
                    r = self.pool.ite(eq, r, ne);
                }
                Ok(Some(self.from_e(r)))
            }
            Ext::Strlen => {
                let p = self.conc(&a[0], 64)?;
                let mut n = 0;
                loop {
                    match self.load_scalar(p + n, 1, 8)? {
                        Val::C(0) => break,
                        Val::C(_) => n += 1,
                        _ => return err("strlen of symbolic data"),
                    }
                }
                Ok(Some(Val::C(n)))
            }
            Ext::Memchr => {
                let p = self.conc(&a[0], 64)?;
                let n = self.conc(&a[2], 64)?;
                let c = self.conc(&a[1], 32)? & 0xff;
                for i in 0..n {
                    let b = self.load_scalar(p + i, 1, 8)?;
                    let q = self.cmp(Pred::Eq, 8, &b, &Val::C(c))?;
                    if self.decide(&q)? {
                        return Ok(Some(Val::C(p + i)));
                    }
                }
                Ok(Some(Val::C(0)))
            }
            Ext::HashWrite => {
                // a legal hash function: it depends only on the number of bytes written
                let p = self.conc(&a[0], 64)?;
                let n = self.conc(&a[2], 64)?;
                let old = self.mem.read(p, 8);
                self.mem.write(p, 8, old.wrapping_mul(31).wrapping_add(n + 1));
                Ok(None)
            }
            Ext::HashFinish => {
                let p = self.conc(&a[0], 64)?;
                let old = self.mem.read(p, 8);
                let mut h = old.wrapping_mul(0x9E3779B97F4A7C15);
                h ^= h >> 32;
                Ok(Some(Val::C(h)))
            }
            Ext::Getenv => Ok(Some(Val::C(0))),
            Ext::Getrandom => {
                let p = self.conc(&a[0], 64)?;
                let n = self.conc(&a[1], 64)?;
                self.mem.fill(p, n, 0x5a);
                Ok(Some(Val::C(n)))
            }
            Ext::Syscall => {
                let nr = self.conc(&a[0], 64)?;
                if nr == 318 {
                    let p = self.conc(&a[1], 64)?;
                    let n = self.conc(&a[2], 64)?;
                    self.mem.fill(p, n, 0x5a);
                    return Ok(Some(Val::C(n)));
                }
                err(format!("system call {}", nr))
            }
            // to the terminal: of no consequence
            Ext::Write => Ok(Some(a[2].clone())),
            Ext::Zero => Ok(Some(Val::C(0))),
            Ext::Abort | Ext::Trap => Err(Stop::Abort(self.m.funcs[f as usize].name.clone())),
            Ext::Errno => {
                if self.errno == 0 {
                    self.errno = self.malloc(8, 16)?;
                }
                Ok(Some(Val::C(self.errno)))
            }
            Ext::Tls | Ext::Expect => Ok(Some(a[0].clone())),
            Ext::IsConst => Ok(Some(Val::C(0))),
            Ext::Umax | Ext::Umin | Ext::Smax | Ext::Smin => {
                if let (Val::Agg(x), Val::Agg(y)) = (&a[0], &a[1]) {
                    let ew = rt.field(0).w();
                    let mut o = vec![];
                    for i in 0..x.len() {
                        o.push(self.minmax(k, ew, &x[i], &y[i])?);
                    }
                    return Ok(Some(Val::Agg(Arc::new(o))));
                }
                Ok(Some(self.minmax(k, w, &a[0], &a[1])?))
            }
            Ext::Abs => {
                let z = Val::C(0);
                let neg = self.cmp(Pred::Slt, w, &a[0], &z)?;
                let n = self.bin(BinOp::Sub, w, &z, &a[0])?;
                Ok(Some(self.select(&neg, &n, &a[0], w)?))
            }
            Ext::Ucmp | Ext::Scmp => {
                // the operand width is not carried by the result type
                let ow: u32 = {
                    let nm = &self.m.funcs[f as usize].name;
                    nm.rsplit(".i").next().and_then(|x| x.parse().ok()).unwrap_or(64)
                };
                let (p, q) = if k == Ext::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let lt = self.cmp(p, ow, &a[0], &a[1])?;
                let gt = self.cmp(q, ow, &a[0], &a[1])?;
                let g = self.select(&gt, &Val::C(1), &Val::C(0), w)?;
                Ok(Some(self.select(&lt, &Val::C(mask(w)), &g, w)?))
            }
            Ext::Cttz | Ext::Ctlz | Ext::Ctpop | Ext::Bswap | Ext::Bitrev => {
                if let Val::W(_) | Val::WS(_) | Val::Agg(_) = a[0] {
                    return err("bit intrinsic on a wide value");
                }
                if let Val::S(e) = a[0] {
                    match k {
                        Ext::Cttz => {
                            let mut r = self.pool.konst(w as u64, w);
                            for i in (0..w).rev() {
                                let b = self.pool.extract(e, i, 1);
                                let ki = self.pool.konst(i as u64, w);
                                r = self.pool.ite(b, ki, r);
                            }
                            return Ok(Some(self.from_e(r)));
                        }
                        Ext::Ctlz => {
                            let mut r = self.pool.konst(w as u64, w);
                            for i in 0..w {
                                let b = self.pool.extract(e, i, 1);
                                let ki = self.pool.konst((w - 1 - i) as u64, w);
                                r = self.pool.ite(b, ki, r);
                            }
                            return Ok(Some(self.from_e(r)));
                        }
                        Ext::Ctpop => {
                            let mut r = self.pool.konst(0, w);
                            for i in 0..w {
                                let b = self.pool.extract(e, i, 1);
                                let x = self.pool.zext(b, w);
                                r = self.pool.bin(Op::Add, w, r, x);
                            }
                            return Ok(Some(self.from_e(r)));
                        }
                        Ext::Bswap => {
                            let n = w / 8;
                            let mut r = self.pool.extract(e, 0, 8);
                            for i in 1..n {
                                let b = self.pool.extract(e, 8 * i, 8);
                                r = self.pool.concat(r, b);
                            }
                            return Ok(Some(self.from_e(r)));
                        }
                        _ => {}
                    }
                }
                let x = self.conc(&a[0], w)?;
                Ok(Some(Val::C(match k {
                    Ext::Cttz => {
                        if x == 0 {
                            w as u64
                        } else {
                            x.trailing_zeros() as u64
                        }
                    }
                    Ext::Ctlz => {
                        if x == 0 {
                            w as u64
                        } else {
                            (x.leading_zeros() - (64 - w)) as u64
                        }
                    }
                    Ext::Ctpop => x.count_ones() as u64,
                    Ext::Bswap => x.swap_bytes() >> (64 - w),
                    _ => x.reverse_bits() >> (64 - w),
                })))
            }
            Ext::Fshl | Ext::Fshr => {
                let sh = match &a[2] {
                    Val::C(s) => *s % w as u64,
                    _ => return err("symbolic funnel shift amount"),
                };
                let l = if k == Ext::Fshl { sh } else { w as u64 - sh };
                if sh == 0 {
                    return Ok(Some(if k == Ext::Fshl { a[0].clone() } else { a[1].clone() }));
                }
                let hi = self.bin(BinOp::Shl, w, &a[0], &Val::C(l))?;
                let lo = self.bin(BinOp::LShr, w, &a[1], &Val::C(w as u64 - l))?;
                Ok(Some(self.bin(BinOp::Or, w, &hi, &lo)?))
            }
            Ext::UaddO | Ext::UsubO | Ext::UmulO | Ext::SaddO | Ext::SsubO | Ext::SmulO => {
                let ow = rt.field(0).w();
                if let (Val::S(_), Ext::UaddO | Ext::UsubO) | (_, Ext::UaddO | Ext::UsubO) = (&a[0], k) {
                    if k == Ext::UaddO {
                        let s = self.bin(BinOp::Add, ow, &a[0], &a[1])?;
                        let o = self.cmp(Pred::Ult, ow, &s, &a[0])?;
                        return Ok(Some(Val::Agg(Arc::new(vec![s, o]))));
                    } else {
                        let s = self.bin(BinOp::Sub, ow, &a[0], &a[1])?;
                        let o = self.cmp(Pred::Ult, ow, &a[0], &a[1])?;
                        return Ok(Some(Val::Agg(Arc::new(vec![s, o]))));
                    }
                }
                if ow <= 32 && (matches!(a[0], Val::S(_)) || matches!(a[1], Val::S(_))) {
                    let signed = !matches!(k, Ext::UmulO);
                    let c = if signed { CastOp::SExt } else { CastOp::ZExt };
                    let x = self.cast(c, ow, 64, &a[0])?;
                    let y = self.cast(c, ow, 64, &a[1])?;
                    let op = match k {
                        Ext::UmulO | Ext::SmulO => BinOp::Mul,
                        Ext::SaddO => BinOp::Add,
                        _ => BinOp::Sub,
                    };
                    let r = self.bin(op, 64, &x, &y)?;
                    let t = self.cast(CastOp::Trunc, 64, ow, &r)?;
                    let back = self.cast(c, ow, 64, &t)?;
                    let o = self.cmp(Pred::Ne, 64, &back, &r)?;
                    return Ok(Some(Val::Agg(Arc::new(vec![t, o]))));
                }
                let x = self.conc(&a[0], ow)?;
                let y = self.conc(&a[1], ow)?;
                let (r, o) = match k {
                    Ext::UmulO => {
                        let z = x as u128 * y as u128;
                        (z as u64 & mask(ow), z > mask(ow) as u128)
                    }
                    _ => {
                        let (p, q) = (sext(x, ow) as i128, sext(y, ow) as i128);
                        let z = match k {
                            Ext::SaddO => p + q,
                            Ext::SsubO => p - q,
                            _ => p * q,
                        };
                        let t = z as u64 & mask(ow);
                        (t, sext(t, ow) as i128 != z)
                    }
                };
                Ok(Some(Val::Agg(Arc::new(vec![Val::C(r), Val::C(o as u64)]))))
            }
            Ext::UaddSat => {
                let s = self.bin(BinOp::Add, w, &a[0], &a[1])?;
                let o = self.cmp(Pred::Ult, w, &s, &a[0])?;
                Ok(Some(self.select(&o, &Val::C(mask(w)), &s, w)?))
            }
            Ext::UsubSat => {
                let s = self.bin(BinOp::Sub, w, &a[0], &a[1])?;
                let o = self.cmp(Pred::Ult, w, &a[0], &a[1])?;
                Ok(Some(self.select(&o, &Val::C(0), &s, w)?))
            }
            Ext::MovmskB => {
                let v = match &a[0] {
                    Val::Agg(v) => v.clone(),
                    _ => return err("pmovmskb"),
                };
                let mut r = Val::C(0);
                for (i, x) in v.iter().enumerate() {
                    let b = self.cmp(Pred::Slt, 8, x, &Val::C(0))?;
                    let z = self.select(&b, &Val::C(1 << i), &Val::C(0), 32)?;
                    r = self.bin(BinOp::Or, 32, &r, &z)?;
                }
                Ok(Some(r))
            }
            Ext::SymByte | Ext::SymU32 => {
                let id = self.conc(&a[0], 32)? as u32;
                let lo = self.conc(&a[1], 32)?;
                let hi = self.conc(&a[2], 32)?;
                let rw = w;
                let bits = (64 - hi.leading_zeros()).max(1);
                let v = self.pool.var(id, bits);
                self.nvars_seen |= 1u128 << id;
                let mut cs = vec![];
                if lo > 0 {
                    let k = self.pool.konst(lo, bits);
                    cs.push(self.pool.bin(Op::Ule, bits, k, v));
                }
                if hi != mask(bits) {
                    let k = self.pool.konst(hi, bits);
                    cs.push(self.pool.bin(Op::Ule, bits, v, k));
                }
                let bit = 1u128 << id;
                let used = self.cons.iter().any(|c| self.pool.vars[*c as usize] & bit != 0);
                if !used {
                    self.model[id as usize] = lo;
                }
                for c in cs {
                    self.add_con(c);
                }
                let r = self.pool.zext(v, rw);
                Ok(Some(self.from_e(r)))
            }
            Ext::SymParam => Ok(Some(Val::C(self.param))),
            Ext::SymAssume => {
                let c = self.cmp(Pred::Ne, 32, &a[0], &Val::C(0))?;
                let e = self.to_e(&c, 1)?;
                if self.pool.is_const(e) == Some(0) || self.known.get(&e) == Some(&false) {
                    return Err(Stop::Infeasible);
                }
                if self.eval(e) != 1 {
                    match self.sat(e)? {
                        None => return Err(Stop::Infeasible),
                        Some(m) => self.apply_model(&m),
                    }
                }
                self.add_con(e);
                Ok(None)
            }
            Ext::SymAssert => {
                let code = self.conc(&a[1], 32)?;
                self.asserts += 1;
                let c = self.cmp(Pred::Ne, 32, &a[0], &Val::C(0))?;
                let e = self.to_e(&c, 1)?;
                if self.pool.is_const(e) == Some(1) || self.known.get(&e) == Some(&true) {
                    return Ok(None);
                }
                let ne = self.pool.not1(e);
                match self.sat(ne)? {
                    None => {
                        self.know(e, true);
                        Ok(None)
                    }
                    Some(m) => {
                        let keep = self.model.clone();
                        self.apply_model(&m);
                        self.report("assert", code.to_string());
                        self.model = keep;
                        // go on with the inputs that satisfy it
                        if self.eval(e) != 1 {
                            match self.sat(e)? {
                                None => return Err(Stop::Infeasible),
                                Some(m) => self.apply_model(&m),
                            }
                        }
                        self.add_con(e);
                        Ok(None)
                    }
                }
            }
            Ext::SymCover => {
                let id = self.conc(&a[0], 32)? as u32;
                self.path_covers.push(id);
                Ok(None)
            }
            Ext::SymFork => {
                let v = self.conc(&a[0], 32)?;
                Ok(Some(Val::C(v)))
            }
            Ext::SymConcrete => Ok(Some(Val::C(matches!(a[0], Val::C(_)) as u64))),
            Ext::SymOut => {
                let v = a[0].clone();
                self.out.push(v);
                Ok(None)
            }
            Ext::SymPanicOk => {
                let v = self.conc(&a[0], 32)?;
                self.allow_panic = v != 0;
                Ok(None)
            }
            Ext::None => unreachable!(),
        }
    }
    fn minmax(&mut self, k: Ext, w: u32, a: &Val, b: &Val) -> R<Val> {
        let p = match k {
            Ext::Umax => Pred::Ugt,
            Ext::Umin => Pred::Ult,
            Ext::Smax => Pred::Sgt,
            _ => Pred::Slt,
        };
        let c = self.cmp(p, w, a, b)?;
        self.select(&c, a, b, w)
    }
    pub fn out_concrete(&mut self) -> Vec<u64> {
        let out = self.out.clone();
        out.iter()
            .map(|v| match v {
                Val::C(x) => *x,
                Val::S(e) => self.eval(*e),
                _ => 0,
            })
            .collect()
    }
    #[allow(dead_code)]
    pub fn unused(&self) -> Option<u64> {
        v_const(&Val::C(0))
    }
}
