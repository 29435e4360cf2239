//! z3 (C API, in process) behind a slicing + canonicalising query cache.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, l: P, r: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,     // feasibility / validity questions put to the solver layer
    pub z3_calls: u64,    // of those, decided by a z3 check-sat
    pub cache_hits: u64,  // answered by an identical (up to variable renaming) earlier z3 verdict
    pub sat: u64,
    pub unsat: u64,
    pub z3_time: f64,
}

pub struct Solver {
    ctx: P,
    slv: P,
    asts: FxMap<E, usize>,
    calls_in_ctx: u32,
    exact: FxMap<Box<[E]>, Option<Rc<Vec<(u32, u64)>>>>,
    canon: FxMap<u128, Option<Rc<Vec<u64>>>>,
    pub stats: Stats,
    pub dump: Option<Vec<(String, bool)>>,
    pub dump_limit: usize,
}

pub enum Ans {
    Sat(Rc<Vec<(u32, u64)>>),
    Unsat,
}

impl Solver {
    pub fn new() -> Self {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            slv: std::ptr::null_mut(),
            asts: FxMap::default(),
            calls_in_ctx: 0,
            exact: FxMap::default(),
            canon: FxMap::default(),
            stats: Stats::default(),
            dump: None,
            dump_limit: 0,
        };
        s.open();
        s
    }
    fn open(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new("60000").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            let l = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            self.slv = Z3_mk_solver_for_logic(self.ctx, sym);
            Z3_solver_inc_ref(self.ctx, self.slv);
        }
        self.asts.clear();
        self.calls_in_ctx = 0;
    }
    fn close(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.slv);
            Z3_del_context(self.ctx);
        }
    }
    fn bool2bv(&self, a: P) -> P {
        unsafe {
            let s1 = Z3_mk_bv_sort(self.ctx, 1);
            let one = Z3_mk_unsigned_int64(self.ctx, 1, s1);
            let zero = Z3_mk_unsigned_int64(self.ctx, 0, s1);
            Z3_mk_ite(self.ctx, a, one, zero)
        }
    }
    fn ast(&mut self, p: &Pool, e: E) -> P {
        if let Some(&a) = self.asts.get(&e) {
            return a as P;
        }
        let n = p.nodes[e as usize];
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => Z3_mk_unsigned_int64(c, n.k, Z3_mk_bv_sort(c, n.w as u32)),
                Op::Var => {
                    let nm = CString::new(format!("v{}_{}", n.k, n.w)).unwrap();
                    let sym = Z3_mk_string_symbol(c, nm.as_ptr());
                    Z3_mk_const(c, sym, Z3_mk_bv_sort(c, n.w as u32))
                }
                Op::ZExt => {
                    let a = self.ast(p, n.a);
                    Z3_mk_zero_ext(c, n.w as u32 - p.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.ast(p, n.a);
                    Z3_mk_sign_ext(c, n.w as u32 - p.w(n.a), a)
                }
                Op::Extract => {
                    let a = self.ast(p, n.a);
                    Z3_mk_extract(c, n.k as u32 + n.w as u32 - 1, n.k as u32, a)
                }
                Op::Ite => {
                    let a = self.ast(p, n.a);
                    let b = self.ast(p, n.b);
                    let d = self.ast(p, n.c);
                    let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                    Z3_mk_ite(c, Z3_mk_eq(c, a, one), b, d)
                }
                _ => {
                    let a = self.ast(p, n.a);
                    let b = self.ast(p, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Eq => self.bool2bv(Z3_mk_eq(c, a, b)),
                        Op::Ult => self.bool2bv(Z3_mk_bvult(c, a, b)),
                        Op::Ule => self.bool2bv(Z3_mk_bvule(c, a, b)),
                        Op::Slt => self.bool2bv(Z3_mk_bvslt(c, a, b)),
                        Op::Sle => self.bool2bv(Z3_mk_bvsle(c, a, b)),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.asts.insert(e, r as usize);
        r
    }

    /// Canonical 128-bit key of a conjunction, invariant under variable renaming by first
    /// occurrence; also returns the variables in canonical order.
    fn canon_key(&self, p: &Pool, cs: &[E]) -> (u128, Vec<(u32, u32)>) {
        let mut seen: FxMap<E, u32> = FxMap::default();
        let mut vars: Vec<(u32, u32)> = vec![];
        let mut h1: u64 = 0x9E3779B97F4A7C15;
        let mut h2: u64 = 0xC2B2AE3D27D4EB4F;
        let mut put = |x: u64, h1: &mut u64, h2: &mut u64| {
            *h1 = (h1.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
            *h2 = (h2.rotate_left(23) ^ x.wrapping_mul(0xff51afd7ed558ccd)).wrapping_mul(0xc4ceb9fe1a85ec53) ^ (*h2 >> 29);
        };
        fn rec(
            p: &Pool,
            e: E,
            seen: &mut FxMap<E, u32>,
            vars: &mut Vec<(u32, u32)>,
            out: &mut Vec<u64>,
        ) {
            if let Some(&i) = seen.get(&e) {
                out.push(0xFFFF_0000_0000 | i as u64);
                return;
            }
            let n = p.nodes[e as usize];
            out.push(((n.op as u64) << 8) | n.w as u64);
            match n.op {
                Op::Const => out.push(n.k),
                Op::Var => {
                    vars.push((n.k as u32, n.w as u32));
                }
                Op::ZExt | Op::SExt => rec(p, n.a, seen, vars, out),
                Op::Extract => {
                    out.push(n.k);
                    rec(p, n.a, seen, vars, out)
                }
                Op::Ite => {
                    rec(p, n.a, seen, vars, out);
                    rec(p, n.b, seen, vars, out);
                    rec(p, n.c, seen, vars, out)
                }
                _ => {
                    rec(p, n.a, seen, vars, out);
                    rec(p, n.b, seen, vars, out)
                }
            }
            let i = seen.len() as u32;
            seen.insert(e, i);
        }
        let mut out = Vec::with_capacity(64);
        for &c in cs {
            rec(p, c, &mut seen, &mut vars, &mut out);
            out.push(0xEEEE_EEEE);
        }
        for x in out {
            put(x, &mut h1, &mut h2);
        }
        (((h1 as u128) << 64) | h2 as u128, vars)
    }

    /// Is (conjunction of the constraints related to `cond`) and `cond` satisfiable?
    pub fn check(&mut self, p: &Pool, cons: &[E], cond: E) -> Result<Ans, String> {
        self.stats.queries += 1;
        // slice
        let mut vs = p.vars[cond as usize];
        let mut used: Vec<E> = Vec::with_capacity(16);
        let mut taken = vec![false; cons.len()];
        loop {
            let mut grew = false;
            for (i, &c) in cons.iter().enumerate() {
                if !taken[i] && p.vars[c as usize] & vs != 0 {
                    taken[i] = true;
                    used.push(c);
                    let nv = vs | p.vars[c as usize];
                    if nv != vs {
                        vs = nv;
                        grew = true;
                    }
                }
            }
            if !grew {
                break;
            }
        }
        used.sort_unstable();
        used.dedup();
        used.push(cond);
        let key: Box<[E]> = used.clone().into_boxed_slice();
        if let Some(r) = self.exact.get(&key) {
            self.stats.cache_hits += 1;
            return Ok(match r {
                Some(m) => {
                    self.stats.sat += 1;
                    Ans::Sat(m.clone())
                }
                None => {
                    self.stats.unsat += 1;
                    Ans::Unsat
                }
            });
        }
        // canonical: condition first so that variable order starts there
        let mut ordered = vec![cond];
        ordered.extend_from_slice(&used[..used.len() - 1]);
        let (ck, vars) = self.canon_key(p, &ordered);
        if let Some(r) = self.canon.get(&ck) {
            self.stats.cache_hits += 1;
            let r = r.as_ref().map(|m| Rc::new(vars.iter().zip(m.iter()).map(|(v, x)| (v.0, *x)).collect::<Vec<_>>()));
            self.exact.insert(key, r.clone());
            return Ok(match r {
                Some(m) => {
                    self.stats.sat += 1;
                    Ans::Sat(m)
                }
                None => {
                    self.stats.unsat += 1;
                    Ans::Unsat
                }
            });
        }
        if self.calls_in_ctx > 20000 {
            self.close();
            self.open();
        }
        self.calls_in_ctx += 1;
        self.stats.z3_calls += 1;
        let t0 = std::time::Instant::now();
        let asts: Vec<P> = ordered.iter().map(|&e| self.ast(p, e)).collect();
        let mut out: Option<Vec<u64>> = None;
        let res;
        let mut dumped = false;
        unsafe {
            let c = self.ctx;
            let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
            Z3_solver_push(c, self.slv);
            for a in asts {
                Z3_solver_assert(c, self.slv, Z3_mk_eq(c, a, one));
            }
            if let Some(d) = &mut self.dump {
                if d.len() < self.dump_limit {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, self.slv)).to_string_lossy().to_string();
                    d.push((s, false));
                    dumped = true;
                }
            }
            res = Z3_solver_check(c, self.slv);
            if res == 1 {
                let m = Z3_solver_get_model(c, self.slv);
                Z3_model_inc_ref(c, m);
                let mut vals = vec![];
                for &(v, w) in &vars {
                    let nm = CString::new(format!("v{}_{}", v, w)).unwrap();
                    let sym = Z3_mk_string_symbol(c, nm.as_ptr());
                    let k = Z3_mk_const(c, sym, Z3_mk_bv_sort(c, w));
                    let mut o: P = std::ptr::null_mut();
                    if !Z3_model_eval(c, m, k, true, &mut o) {
                        return Err("z3 model evaluation failed".into());
                    }
                    let mut u = 0u64;
                    if !Z3_get_numeral_uint64(c, o, &mut u) {
                        return Err("z3 model value is not a numeral".into());
                    }
                    vals.push(u);
                }
                Z3_model_dec_ref(c, m);
                out = Some(vals);
            }
            Z3_solver_pop(c, self.slv, 1);
            let ec = Z3_get_error_code(c);
            if ec != 0 {
                return Err(format!("z3 error code {}", ec));
            }
        }
        self.stats.z3_time += t0.elapsed().as_secs_f64();
        if let Some(d) = &mut self.dump {
            if dumped {
                d.last_mut().unwrap().1 = res == 1;
            }
        }
        match res {
            1 => {
                self.stats.sat += 1;
                let vals = out.unwrap();
                let m = Rc::new(vars.iter().zip(vals.iter()).map(|(v, x)| (v.0, *x)).collect::<Vec<_>>());
                self.canon.insert(ck, Some(Rc::new(vals)));
                self.exact.insert(key, Some(m.clone()));
                Ok(Ans::Sat(m))
            }
            -1 => {
                self.stats.unsat += 1;
                self.canon.insert(ck, None);
                self.exact.insert(key, None);
                Ok(Ans::Unsat)
            }
            _ => Err("z3 answered unknown".into()),
        }
    }
}
