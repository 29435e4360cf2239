//! Hash-consed bit-vector expressions (width 1..=64) with local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // k = low bit
    Concat,  // a = high, b = low
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn sext(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub struct Pool {
    pub nodes: Vec<Node>,
    pub vars: Vec<u128>, // set of variables of each node
    map: FxMap<Node, E>,
    evals: Vec<u64>,
    stamp: Vec<u32>,
    cur: u32,
}

/// Concrete semantics shared by folding, model evaluation and the interpreter.
pub fn fold(op: Op, w: u32, x: u64, y: u64) -> u64 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                (if a < 0 { 1 } else { m }) & m
            } else {
                a.wrapping_div(b) as u64 & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u64 & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u64 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = sext(x, w);
            let sh = if y >= w as u64 { w - 1 } else { y as u32 };
            (s >> sh.min(63)) as u64 & m
        }
        Op::Eq => (x == y) as u64,
        Op::Ult => (x < y) as u64,
        Op::Ule => (x <= y) as u64,
        Op::Slt => (sext(x, w) < sext(y, w)) as u64,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u64,
        _ => unreachable!(),
    }
}

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool {
            nodes: vec![],
            vars: vec![],
            map: FxMap::default(),
            evals: vec![],
            stamp: vec![],
            cur: 0,
        };
        // id 0 is reserved ("concrete byte" in the memory shadow)
        p.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        p
    }
    fn push(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let vs = match n.op {
            Op::Const => 0,
            Op::Var => 1u128 << n.k,
            Op::ZExt | Op::SExt | Op::Extract => self.vars[n.a as usize],
            Op::Ite => self.vars[n.a as usize] | self.vars[n.b as usize] | self.vars[n.c as usize],
            _ => self.vars[n.a as usize] | self.vars[n.b as usize],
        };
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.vars.push(vs);
        self.evals.push(0);
        self.stamp.push(0);
        self.map.insert(n, id);
        id
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn konst(&mut self, v: u64, w: u32) -> E {
        self.push(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn is_const(&self, e: E) -> Option<u64> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn var(&mut self, idx: u32, w: u32) -> E {
        assert!(idx < 128, "too many symbolic variables");
        self.push(Node { op: Op::Var, w: w as u8, a: 0, b: 0, c: 0, k: idx as u64 })
    }
    pub fn not1(&mut self, e: E) -> E {
        let one = self.konst(1, 1);
        self.bin(Op::Xor, 1, e, one)
    }
    /// Upper bound on the unsigned value of e (cheap).
    fn umax(&self, e: E) -> u64 {
        let n = &self.nodes[e as usize];
        let m = mask(n.w as u32);
        match n.op {
            Op::Const => n.k,
            Op::ZExt => self.umax(n.a),
            Op::And => self.umax(n.a).min(self.umax(n.b)),
            Op::Ite => self.umax(n.b).max(self.umax(n.c)),
            Op::LShr => {
                if let Some(k) = self.is_const(n.b) {
                    if k >= n.w as u64 {
                        0
                    } else {
                        self.umax(n.a) >> k
                    }
                } else {
                    m
                }
            }
            Op::Or | Op::Xor => {
                let x = self.umax(n.a) | self.umax(n.b);
                if x == 0 {
                    0
                } else {
                    mask(64 - x.leading_zeros())
                }
            }
            _ => m,
        }
    }
    pub fn bin(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        let (mut a, mut b) = (a, b);
        let ca = self.is_const(a);
        let cb = self.is_const(b);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(fold(op, w, x, y), rw);
        }
        // commutative: constant to the right
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if ca.is_some() || (cb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let cb = self.is_const(b);
        let ca = self.is_const(a);
        let m = mask(w);
        let na = self.nodes[a as usize];
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.konst(0, w),
                Op::And | Op::Or => return a,
                Op::Eq | Op::Ule | Op::Sle => return self.konst(1, 1),
                Op::Ult | Op::Slt => return self.konst(0, 1),
                _ => {}
            }
        }
        if matches!(op, Op::Slt | Op::Sle) {
            let sb = 1u64 << (w - 1);
            let (ua, ub) = (self.umax(a), self.umax(b));
            if ua < sb && ub < sb {
                let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                return self.bin(o, w, a, b);
            }
            if ua < sb && cb.map_or(false, |k| k >= sb) {
                return self.konst(0, 1);
            }
            if ub < sb && ca.map_or(false, |k| k >= sb) {
                return self.konst(1, 1);
            }
        }
        if let Some(k) = cb {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
                Op::And if k == m => return a,
                Op::And if k == 0 => return self.konst(0, w),
                Op::Or if k == m => return self.konst(m, w),
                Op::Mul if k == 1 => return a,
                Op::Mul if k == 0 => return self.konst(0, w),
                Op::Shl | Op::LShr if k >= w as u64 => return self.konst(0, w),
                Op::UDiv if k == 1 => return a,
                _ => {}
            }
            // push ops with constants through small ites of constants
            if na.op == Op::Ite {
                let (tb, fb) = (self.is_const(na.b), self.is_const(na.c));
                if let (Some(t), Some(f)) = (tb, fb) {
                    let x = self.konst(fold(op, w, t, k), rw);
                    let y = self.konst(fold(op, w, f, k), rw);
                    return self.ite(na.a, x, y);
                }
                // Eq/compare over ite with one constant arm: distribute for Eq only
                if op == Op::Eq && (tb.is_some() || fb.is_some()) {
                    let x = self.bin(Op::Eq, w, na.b, b);
                    let y = self.bin(Op::Eq, w, na.c, b);
                    return self.ite(na.a, x, y);
                }
            }
            match op {
                Op::Sub => {
                    let nk = self.konst(k.wrapping_neg(), w);
                    return self.bin(Op::Add, w, a, nk);
                }
                Op::Add if na.op == Op::Add => {
                    if let Some(k2) = self.is_const(na.b) {
                        let nk = self.konst(k.wrapping_add(k2), w);
                        return self.bin(Op::Add, w, na.a, nk);
                    }
                }
                Op::And if na.op == Op::And => {
                    if let Some(k2) = self.is_const(na.b) {
                        let nk = self.konst(k & k2, w);
                        return self.bin(Op::And, w, na.a, nk);
                    }
                }
                Op::And => {
                    // mask covers all possible bits
                    let um = self.umax(a);
                    let um = if um == 0 { 0 } else { mask(64 - um.leading_zeros()) };
                    if um & k == um {
                        return a;
                    }
                    if um & k == 0 {
                        return self.konst(0, w);
                    }
                    if na.op == Op::Or {
                        // (x | c) & k
                        if let Some(c) = self.is_const(na.b) {
                            let x = self.bin(Op::And, w, na.a, b);
                            let ck = self.konst(c & k, w);
                            return self.bin(Op::Or, w, x, ck);
                        }
                    }
                }
                Op::Xor if na.op == Op::Xor => {
                    if let Some(k2) = self.is_const(na.b) {
                        let nk = self.konst(k ^ k2, w);
                        return self.bin(Op::Xor, w, na.a, nk);
                    }
                }
                Op::Xor if w == 1 && k == 1 => {
                    // not of a comparison
                    match na.op {
                        Op::Ult => return self.bin_cmp_raw(Op::Ule, na.b, na.a),
                        Op::Ule => return self.bin_cmp_raw(Op::Ult, na.b, na.a),
                        Op::Slt => return self.bin_cmp_raw(Op::Sle, na.b, na.a),
                        Op::Sle => return self.bin_cmp_raw(Op::Slt, na.b, na.a),
                        _ => {}
                    }
                }
                Op::Eq => {
                    if w == 1 {
                        return if k == 1 { a } else { self.not1(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.konst(0, 1);
                            }
                            let nk = self.konst(k, iw);
                            return self.bin(Op::Eq, iw, na.a, nk);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let t = k & mask(iw);
                            if (sext(t, iw) as u64) & m != k {
                                return self.konst(0, 1);
                            }
                            let nk = self.konst(t, iw);
                            return self.bin(Op::Eq, iw, na.a, nk);
                        }
                        Op::Add => {
                            if let Some(k2) = self.is_const(na.b) {
                                let nk = self.konst(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, w, na.a, nk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.is_const(na.b) {
                                let nk = self.konst(k ^ k2, w);
                                return self.bin(Op::Eq, w, na.a, nk);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let lo = self.konst(k & mask(lw), lw);
                            let hi = self.konst(k >> lw, hw);
                            let x = self.bin(Op::Eq, lw, na.b, lo);
                            let y = self.bin(Op::Eq, hw, na.a, hi);
                            return self.bin(Op::And, 1, x, y);
                        }
                        _ => {}
                    }
                    if self.umax(a) < k {
                        return self.konst(0, 1);
                    }
                }
                Op::Ult => {
                    if k == 0 {
                        return self.konst(0, 1);
                    }
                    if self.umax(a) < k {
                        return self.konst(1, 1);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let nk = self.konst(k, iw);
                        return self.bin(Op::Ult, iw, na.a, nk);
                    }
                }
                Op::Ule => {
                    if self.umax(a) <= k {
                        return self.konst(1, 1);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let nk = self.konst(k, iw);
                        return self.bin(Op::Ule, iw, na.a, nk);
                    }
                }
                Op::LShr => {
                    if self.umax(a) >> k == 0 {
                        return self.konst(0, w);
                    }
                }
                _ => {}
            }
        }
        if let Some(k) = ca {
            let nb = self.nodes[b as usize];
            match op {
                Op::Ult => {
                    if self.umax(b) <= k {
                        return self.konst(0, 1);
                    }
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        let nk = self.konst(k, iw);
                        return self.bin(Op::Ult, iw, nk, nb.a);
                    }
                }
                Op::Ule => {
                    if k == 0 {
                        return self.konst(1, 1);
                    }
                    if self.umax(b) < k {
                        return self.konst(0, 1);
                    }
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        let nk = self.konst(k, iw);
                        return self.bin(Op::Ule, iw, nk, nb.a);
                    }
                }
                _ => {}
            }
        }
        if ca.is_none() && cb.is_none() {
            let nb = self.nodes[b as usize];
            // comparisons of equally extended values
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                if matches!(op, Op::Eq | Op::Ult | Op::Ule) {
                    let iw = self.w(na.a);
                    return self.bin(op, iw, na.a, nb.a);
                }
                if matches!(op, Op::And | Op::Or | Op::Xor) {
                    let iw = self.w(na.a);
                    let x = self.bin(op, iw, na.a, nb.a);
                    return self.zext(x, w);
                }
            }
        }
        self.push(Node { op, w: rw as u8, a, b, c: 0, k: 0 })
    }
    fn bin_cmp_raw(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        self.bin(op, w, a, b)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.is_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            let (ka, kb) = (self.is_const(a), self.is_const(b));
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, 1, c, b),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.bin(Op::And, 1, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, 1, c, a),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.bin(Op::Or, 1, n, a);
                }
                _ => {}
            }
        }
        self.push(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.nodes[a as usize];
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const => self.konst(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.push(Node { op: Op::ZExt, w: w as u8, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.nodes[a as usize];
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const => self.konst(sext(n.k, n.w as u32) as u64, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.push(Node { op: Op::SExt, w: w as u8, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.nodes[a as usize];
        if lo == 0 && w == n.w as u32 {
            return a;
        }
        match n.op {
            Op::Const => self.konst(n.k >> lo, w),
            Op::Extract => self.extract(n.a, lo + n.k as u32, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.konst(0, w)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.zext(x, w)
                }
            }
            Op::SExt if lo + w <= self.w(n.a) => self.extract(n.a, lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, w, x, y)
            }
            Op::Add | Op::Sub if lo == 0 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, w, x, y)
            }
            Op::Ite if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                self.ite(n.a, x, y)
            }
            Op::LShr => {
                if let Some(k) = self.is_const(n.b) {
                    let k = k as u32;
                    if lo + k + w <= n.w as u32 {
                        return self.extract(n.a, lo + k, w);
                    }
                }
                self.push(Node { op: Op::Extract, w: w as u8, a, b: 0, c: 0, k: lo as u64 })
            }
            Op::Shl => {
                if let Some(k) = self.is_const(n.b) {
                    let k = k as u32;
                    if lo >= k {
                        return self.extract(n.a, lo - k, w);
                    }
                    if lo + w <= k {
                        return self.konst(0, w);
                    }
                }
                self.push(Node { op: Op::Extract, w: w as u8, a, b: 0, c: 0, k: lo as u64 })
            }
            _ => self.push(Node { op: Op::Extract, w: w as u8, a, b: 0, c: 0, k: lo as u64 }),
        }
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        let w = nh.w as u32 + nl.w as u32;
        assert!(w <= 64, "concat too wide");
        match (nh.op, nl.op) {
            (Op::Const, Op::Const) => return self.konst((nh.k << nl.w) | nl.k, w),
            (Op::Const, _) if nh.k == 0 => return self.zext(lo, w),
            (Op::Extract, Op::Extract) if nh.a == nl.a && nh.k == nl.k + nl.w as u64 => {
                return self.extract(nh.a, nl.k as u32, w);
            }
            (Op::Extract, _) if nh.a == lo && nh.k == nl.w as u64 => return self.extract(lo, 0, w),
            _ => {}
        }
        // hi = extract of X above lo where lo = low part of a zext already simplified
        self.push(Node { op: Op::Concat, w: w as u8, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn eval(&mut self, e: E, model: &[u64]) -> u64 {
        self.cur = self.cur.wrapping_add(1);
        if self.cur == 0 {
            self.stamp.iter_mut().for_each(|s| *s = 0);
            self.cur = 1;
        }
        self.eval_rec(e, model)
    }
    fn eval_rec(&mut self, e: E, model: &[u64]) -> u64 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) & mask(n.w as u32),
            _ => {}
        }
        if self.stamp[e as usize] == self.cur {
            return self.evals[e as usize];
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::ZExt => self.eval_rec(n.a, model),
            Op::SExt => {
                let iw = self.w(n.a);
                sext(self.eval_rec(n.a, model), iw) as u64 & mask(w)
            }
            Op::Extract => (self.eval_rec(n.a, model) >> n.k) & mask(w),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.eval_rec(n.a, model) << lw) | self.eval_rec(n.b, model)
            }
            Op::Ite => {
                if self.eval_rec(n.a, model) == 1 {
                    self.eval_rec(n.b, model)
                } else {
                    self.eval_rec(n.c, model)
                }
            }
            _ => {
                let ow = self.w(n.a);
                let x = self.eval_rec(n.a, model);
                let y = self.eval_rec(n.b, model);
                fold(n.op, ow, x, y)
            }
        };
        self.stamp[e as usize] = self.cur;
        self.evals[e as usize] = r;
        r
    }
}
