//! Textual LLVM IR -> decoded module.
use crate::expr::{mask, FxMap};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Struct(Vec<Ty>, bool),
    Array(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((w + 7) / 8).next_power_of_two() as u64;
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((w + 7) / 8) as u64,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let s = ((w + 7) / 8) as u64;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => match **t {
                Ty::Int(w) if w < 8 => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => i as u64 * t.size(),
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Array(_, t) | Ty::Vector(_, t) => t,
            _ => panic!("field of {:?}", self),
        }
    }
    /// bit width of a scalar
    pub fn w(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(u32),
    W(Arc<(u128, u32)>), // concrete integers wider than 64 bits
    WS(Arc<(u32, u32, u32)>), // symbolic ones: low 64 bits, high bits, width
    Agg(Arc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub to: u32,
    pub moves: Vec<(u32, Opnd)>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ptr(Opnd),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, u32, u32, Opnd, Opnd),          // op, w, dst
    BinV(BinOp, u32, u64, u32, Opnd, Opnd),    // op, w, n, dst
    Cmp(Pred, u32, u32, Opnd, Opnd),           // pred, w, dst
    CmpV(Pred, u32, u64, u32, Opnd, Opnd),
    Cast(CastOp, u32, u32, u32, Opnd),         // op, from w, to w, dst
    CastV(CastOp, Ty, Ty, u32, Opnd),
    Load(u32, Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, i64, Vec<(Opnd, i64, u32)>),
    Alloca(u32, u64, u64, Opnd),               // dst, elem size, align, count
    Select(u32, Opnd, Opnd, Opnd, Ty, bool),   // dst, c, a, b, ty, cond is vector
    ExtractValue(u32, Opnd, Vec<u32>),
    InsertValue(u32, Opnd, Opnd, Vec<u32>),
    ExtractElem(u32, Opnd, Opnd),
    InsertElem(u32, Opnd, Opnd, Opnd, u64),
    Shuffle(u32, Opnd, Opnd, Vec<i64>, u64),
    Call(Option<u32>, Callee, Vec<Opnd>, Ty, Option<usize>), // normal edge for invoke
    Br(usize),
    CondBr(Opnd, usize, usize),
    Switch(Opnd, u32, usize, Vec<(u64, usize)>, Option<Arc<FxMap<u64, usize>>>),
    Ret(Option<Opnd>),
    Rmw(u32, String, Ty, Opnd, Opnd),
    CmpXchg(u32, Ty, Opnd, Opnd, Opnd),
    Copy(u32, Opnd),
    Nop,
    Unreachable,
    LandingPad,
    Unsupported(String),
}

pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Vec<I>>,
    pub edges: Vec<Edge>,
    pub defined: bool,
    pub byval: Vec<Option<u64>>,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: FxMap<String, u32>,
    pub faddr: FxMap<u64, u32>,
    pub gaddr: FxMap<String, u64>,
    pub image: Vec<u8>, // initial bytes of [GBASE, GBASE+len)
    pub gtop: u64,
    pub const_ranges: Vec<(u64, u64)>,
}

pub const FBASE: u64 = 0x1000;
pub const GBASE: u64 = 0x10_0000;

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    Id(&'a str),
    Loc(String),
    Glob(String),
    Num(&'a str),
    Str(&'a str),
    P(u8),
    Meta,
    Attr,
    End,
}

fn unq(s: &str) -> String {
    s.to_string()
}

struct Lex<'a> {
    s: &'a [u8],
    src: &'a str,
    i: usize,
    tok: T<'a>,
}
fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-'
}
impl<'a> Lex<'a> {
    fn new(src: &'a str) -> Self {
        let mut l = Lex { s: src.as_bytes(), src, i: 0, tok: T::End };
        l.next();
        l
    }
    fn next(&mut self) -> T<'a> {
        let old = std::mem::replace(&mut self.tok, T::End);
        let s = self.s;
        while self.i < s.len() && (s[self.i] == b' ' || s[self.i] == b'\t' || s[self.i] == b'\n') {
            self.i += 1;
        }
        if self.i >= s.len() || s[self.i] == b';' {
            self.i = s.len();
            self.tok = T::End;
            return old;
        }
        let c = s[self.i];
        let st = self.i;
        self.tok = match c {
            b'%' | b'@' => {
                self.i += 1;
                let name;
                if self.i < s.len() && s[self.i] == b'"' {
                    let b = self.i + 1;
                    let mut e = b;
                    while s[e] != b'"' {
                        e += 1;
                    }
                    name = unq(&self.src[b..e]);
                    self.i = e + 1;
                } else {
                    let b = self.i;
                    while self.i < s.len() && idch(s[self.i]) {
                        self.i += 1;
                    }
                    name = self.src[b..self.i].to_string();
                }
                if c == b'%' {
                    T::Loc(name)
                } else {
                    T::Glob(name)
                }
            }
            b'!' => {
                self.i += 1;
                while self.i < s.len() && (idch(s[self.i])) {
                    self.i += 1;
                }
                T::Meta
            }
            b'#' => {
                self.i += 1;
                while self.i < s.len() && s[self.i].is_ascii_digit() {
                    self.i += 1;
                }
                T::Attr
            }
            b'"' => {
                let b = self.i + 1;
                let mut e = b;
                while s[e] != b'"' {
                    e += 1;
                }
                self.i = e + 1;
                T::Str(&self.src[b..e])
            }
            b'c' if self.i + 1 < s.len() && s[self.i + 1] == b'"' => {
                let b = self.i + 2;
                let mut e = b;
                while s[e] != b'"' {
                    e += 1;
                }
                self.i = e + 1;
                T::Str(&self.src[b..e])
            }
            b'0'..=b'9' | b'-' => {
                self.i += 1;
                while self.i < s.len() && (s[self.i].is_ascii_alphanumeric() || s[self.i] == b'.' || s[self.i] == b'+' || s[self.i]==b'-') {
                    self.i += 1;
                }
                T::Num(&self.src[st..self.i])
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                while self.i < s.len() && idch(s[self.i]) {
                    self.i += 1;
                }
                T::Id(&self.src[st..self.i])
            }
            _ => {
                self.i += 1;
                T::P(c)
            }
        };
        old
    }
    fn isp(&self, c: u8) -> bool {
        self.tok == T::P(c)
    }
    fn isid(&self, s: &str) -> bool {
        matches!(self.tok, T::Id(x) if x == s)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.isp(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eatid(&mut self, s: &str) -> bool {
        if self.isid(s) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' got {:?} near `{}`", c as char, self.tok, &self.src[..self.src.len().min(400)]);
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            if self.isp(b'(') {
                d += 1;
            }
            if self.isp(b')') {
                d -= 1;
            }
            if self.tok == T::End {
                panic!("unbalanced parens");
            }
            self.next();
            if d == 0 {
                break;
            }
        }
    }
    fn is_type_start(&self) -> bool {
        match &self.tok {
            T::Id(x) => {
                (x.len() > 1 && x.starts_with('i') && x[1..].bytes().all(|b| b.is_ascii_digit()))
                    || matches!(*x, "ptr" | "void" | "float" | "double" | "label" | "metadata" | "half" | "fp128" | "x86_fp80" | "token")
            }
            T::P(b'{') | T::P(b'[') | T::P(b'<') => true,
            T::Loc(_) => true,
            _ => false,
        }
    }
    fn skip_attrs(&mut self) {
        // attributes before a type or a value
        loop {
            match &self.tok {
                T::Id(x) => {
                    let x = *x;
                    if self.is_type_start()
                        || matches!(
                            x,
                            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint"
                                | "inttoptr" | "bitcast" | "splat" | "none" | "add" | "sub" | "xor" | "trunc" | "ptrtoaddr"
                        )
                    {
                        return;
                    }
                    self.next();
                    if x == "align" && !self.isp(b'(') {
                        if let T::Num(_) = self.tok {
                            self.next();
                        }
                        continue;
                    }
                    if self.isp(b'(') {
                        self.skip_parens();
                    }
                }
                T::Str(_) => {
                    self.next();
                    if self.eat(b'=') {
                        self.next();
                    }
                }
                T::Attr => {
                    self.next();
                }
                _ => return,
            }
        }
    }
    fn ty(&mut self, named: &FxMap<String, Ty>) -> Ty {
        let base = match self.next() {
            T::Id(x) => {
                if x.starts_with('i') && x.len() > 1 && x[1..].bytes().all(|b| b.is_ascii_digit()) {
                    Ty::Int(x[1..].parse().unwrap())
                } else {
                    match x {
                        "ptr" => {
                            if self.isid("addrspace") {
                                self.next();
                                self.skip_parens();
                            }
                            Ty::Ptr
                        }
                        "void" => Ty::Void,
                        "float" => Ty::F32,
                        "double" => Ty::F64,
                        _ => Ty::Other,
                    }
                }
            }
            T::P(b'{') => {
                let mut f = vec![];
                if !self.isp(b'}') {
                    loop {
                        f.push(self.ty(named));
                        if !self.eat(b',') {
                            break;
                        }
                    }
                }
                self.expect(b'}');
                Ty::Struct(f, false)
            }
            T::P(b'[') => {
                let n = self.num() as u64;
                self.next(); // x
                let t = self.ty(named);
                self.expect(b']');
                Ty::Array(n, Box::new(t))
            }
            T::P(b'<') => {
                if self.isp(b'{') {
                    self.next();
                    let mut f = vec![];
                    if !self.isp(b'}') {
                        loop {
                            f.push(self.ty(named));
                            if !self.eat(b',') {
                                break;
                            }
                        }
                    }
                    self.expect(b'}');
                    self.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.num() as u64;
                    self.next();
                    let t = self.ty(named);
                    self.expect(b'>');
                    Ty::Vector(n, Box::new(t))
                }
            }
            T::Loc(n) => named.get(&n).cloned().unwrap_or(Ty::Other),
            t => panic!("type expected, got {:?} in {}", t, &self.src[..self.src.len().min(300)]),
        };
        base
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            T::Num(x) => x.parse::<i128>().unwrap_or_else(|_| panic!("bad number {}", x)),
            t => panic!("number expected got {:?} in {}", t, &self.src[..self.src.len().min(300)]),
        }
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(h(b[i + 1]) * 16 + h(b[i + 2]));
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub fn zero_of(t: &Ty) -> Val {
    match t {
        Ty::Struct(f, _) => Val::Agg(Arc::new(f.iter().map(zero_of).collect())),
        Ty::Array(n, e) | Ty::Vector(n, e) => Val::Agg(Arc::new((0..*n).map(|_| zero_of(e)).collect())),
        Ty::Int(w) if *w > 64 => Val::W(Arc::new((0, *w))),
        _ => Val::C(0),
    }
}

struct Ctx<'m> {
    m: &'m Module,
    named: &'m FxMap<String, Ty>,
    regs: FxMap<String, u32>,
    nregs: u32,
}

impl<'m> Ctx<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn gaddr(&self, n: &str) -> u64 {
        if let Some(&a) = self.m.gaddr.get(n) {
            return a;
        }
        if let Some(&f) = self.m.fidx.get(n) {
            return FBASE + 16 * f as u64;
        }
        panic!("unknown global @{}", n)
    }
    fn konst(&mut self, l: &mut Lex, t: &Ty) -> Val {
        match self.value(l, t) {
            Opnd::K(v) => v,
            Opnd::R(_) => panic!("constant expected"),
        }
    }
    fn cint(&mut self, l: &mut Lex, t: &Ty) -> u64 {
        match self.konst(l, t) {
            Val::C(x) => x,
            v => panic!("int const expected {:?}", v),
        }
    }
    fn tyval(&mut self, l: &mut Lex) -> (Ty, Opnd) {
        let t = l.ty(self.named);
        let v = self.value(l, &t);
        (t, v)
    }
    fn gep_const(&mut self, l: &mut Lex) -> u64 {
        // after 'getelementptr' flags; at '('
        l.expect(b'(');
        let src = l.ty(self.named);
        l.expect(b',');
        let pt = l.ty(self.named);
        let base = self.cint(l, &pt);
        let mut off = 0i64;
        let mut cur = src.clone();
        let mut first = true;
        while l.eat(b',') {
            let it = l.ty(self.named);
            let ix = self.cint(l, &it);
            let ix = crate::expr::sext(ix, it.w());
            if first {
                off += ix * src.size() as i64;
                first = false;
            } else {
                off += cur.field_off(ix as usize) as i64;
                let n = cur.field(ix as usize).clone();
                cur = n;
            }
        }
        l.expect(b')');
        base.wrapping_add(off as u64)
    }
    fn value(&mut self, l: &mut Lex, t: &Ty) -> Opnd {
        if !(matches!(l.tok, T::Str(_)) && matches!(t, Ty::Array(..))) {
            l.skip_attrs();
        }
        let tok = l.next();
        Opnd::K(match tok {
            T::Loc(n) => return Opnd::R(self.reg(&n)),
            T::Glob(n) => Val::C(self.gaddr(&n)),
            T::Num(x) => match t {
                Ty::F32 | Ty::F64 => Val::C(parse_float(x, t)),
                _ => {
                    let v: i128 = x.parse::<i128>().unwrap_or_else(|_| x.parse::<u128>().map(|u| u as i128).unwrap_or_else(|_| panic!("num {}", x)));
                    let w = t.w();
                    if w > 64 {
                        let m = if w >= 128 { !0u128 } else { (1u128 << w) - 1 };
                        Val::W(Arc::new((v as u128 & m, w)))
                    } else {
                        Val::C(v as u64 & mask(w))
                    }
                }
            },
            T::Str(s) => Val::Agg(Arc::new(unescape(s).into_iter().map(|b| Val::C(b as u64)).collect())),
            T::Id(x) => match x {
                "true" => Val::C(1),
                "false" | "null" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" | "none" => zero_of(t),
                "getelementptr" => {
                    while !l.isp(b'(') {
                        l.next();
                        if l.isp(b'(') && false {}
                    }
                    // `inrange(..)` flag would put a '(' here; detect by type start
                    Val::C(self.gep_const(l))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast" => {
                    while !l.isp(b'(') {
                        l.next();
                    }
                    l.expect(b'(');
                    let ft = l.ty(self.named);
                    let v = self.konst(l, &ft);
                    assert!(l.eatid("to"));
                    let tt = l.ty(self.named);
                    l.expect(b')');
                    match v {
                        Val::C(x) if tt.w() > 0 => Val::C(x & mask(tt.w())),
                        v => v,
                    }
                }
                "add" | "sub" | "xor" | "mul" => {
                    while !l.isp(b'(') {
                        l.next();
                    }
                    l.expect(b'(');
                    let ft = l.ty(self.named);
                    let a = self.cint(l, &ft);
                    l.expect(b',');
                    let ft2 = l.ty(self.named);
                    let b = self.cint(l, &ft2);
                    l.expect(b')');
                    let r = match x {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        _ => a ^ b,
                    };
                    Val::C(r & mask(ft.w()))
                }
                "splat" => {
                    l.expect(b'(');
                    let et = l.ty(self.named);
                    let v = self.konst(l, &et);
                    l.expect(b')');
                    let n = match t {
                        Ty::Vector(n, _) | Ty::Array(n, _) => *n,
                        _ => panic!("splat of {:?}", t),
                    };
                    Val::Agg(Arc::new(vec![v; n as usize]))
                }
                _ => panic!("unknown constant `{}` in {}", x, &l.src[..l.src.len().min(300)]),
            },
            T::P(b'{') | T::P(b'[') => {
                let mut f = vec![];
                if !l.isp(b'}') && !l.isp(b']') {
                    loop {
                        let et = l.ty(self.named);
                        f.push(self.konst(l, &et));
                        if !l.eat(b',') {
                            break;
                        }
                    }
                }
                l.next();
                Val::Agg(Arc::new(f))
            }
            T::P(b'<') => {
                let packed = l.eat(b'{');
                let mut f = vec![];
                loop {
                    let et = l.ty(self.named);
                    f.push(self.konst(l, &et));
                    if !l.eat(b',') {
                        break;
                    }
                }
                if packed {
                    l.expect(b'}');
                }
                l.expect(b'>');
                Val::Agg(Arc::new(f))
            }
            t2 => panic!("value expected, got {:?} (type {:?}) in {}", t2, t, &l.src[..l.src.len().min(300)]),
        })
    }
}

fn parse_float(x: &str, t: &Ty) -> u64 {
    if let Some(h) = x.strip_prefix("0x") {
        let bits = u64::from_str_radix(h, 16).unwrap_or(0);
        if *t == Ty::F32 {
            (f64::from_bits(bits) as f32).to_bits() as u64
        } else {
            bits
        }
    } else {
        let v: f64 = x.parse().unwrap_or(0.0);
        if *t == Ty::F32 {
            (v as f32).to_bits() as u64
        } else {
            v.to_bits()
        }
    }
}

pub fn write_val(img: &mut [u8], off: usize, v: &Val, t: &Ty) {
    match t {
        Ty::Struct(f, _) => {
            if let Val::Agg(a) = v {
                for (i, ft) in f.iter().enumerate() {
                    write_val(img, off + t.field_off(i) as usize, &a[i], ft);
                }
            }
        }
        Ty::Array(n, e) | Ty::Vector(n, e) => {
            if let Val::Agg(a) = v {
                let sz = e.size() as usize;
                for i in 0..*n as usize {
                    write_val(img, off + i * sz, &a[i], e);
                }
            }
        }
        _ => match v {
            Val::C(x) => {
                let n = t.store_size() as usize;
                img[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            Val::W(w) => {
                let n = t.store_size() as usize;
                img[off..off + n].copy_from_slice(&w.0.to_le_bytes()[..n]);
            }
            _ => panic!("write_val"),
        },
    }
}

fn func_header<'a>(line: &'a str) -> String {
    // name of the function in a define/declare line
    let i = line.find('@').unwrap();
    let r = &line[i + 1..];
    if let Some(q) = r.strip_prefix('"') {
        q[..q.find('"').unwrap()].to_string()
    } else {
        r[..r.find('(').unwrap()].to_string()
    }
}

pub fn parse(src: &str) -> Module {
    let mut m = Module {
        funcs: vec![],
        fidx: FxMap::default(),
        faddr: FxMap::default(),
        gaddr: FxMap::default(),
        image: vec![],
        gtop: GBASE,
        const_ranges: vec![],
    };
    let mut named: FxMap<String, Ty> = FxMap::default();
    let lines: Vec<&str> = src.lines().collect();
    // pass 1: names
    let mut glines: Vec<usize> = vec![];
    let mut flines: Vec<(usize, usize)> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            glines.push(i);
        } else if l.starts_with('%') && l.contains(" = type ") {
            let mut lx = Lex::new(l);
            if let T::Loc(n) = lx.next() {
                lx.next();
                lx.next();
                let t = if lx.isid("opaque") { Ty::Other } else { lx.ty(&named) };
                named.insert(n, t);
            }
        } else if l.starts_with("define") || l.starts_with("declare") {
            let name = func_header(l);
            let idx = m.funcs.len() as u32;
            m.fidx.insert(name.clone(), idx);
            m.faddr.insert(FBASE + 16 * idx as u64, idx);
            m.funcs.push(Func { name, nparams: 0, nregs: 0, blocks: vec![], edges: vec![], defined: l.starts_with("define"), byval: vec![] });
            if l.starts_with("define") {
                let s = i;
                while lines[i] != "}" {
                    i += 1;
                }
                flines.push((s, i));
            }
        }
        i += 1;
    }
    assert!(FBASE + 16 * (m.funcs.len() as u64) < GBASE);
    // globals: layout
    struct G {
        line: usize,
        addr: u64,
        ty: Ty,
        has_init: bool,
        pos: usize,
    }
    let mut gs: Vec<G> = vec![];
    let mut top = GBASE;
    for &li in &glines {
        let l = lines[li];
        let mut lx = Lex::new(l);
        let name = match lx.next() {
            T::Glob(n) => n,
            _ => panic!(),
        };
        lx.expect(b'=');
        let mut external = false;
        let mut is_const = false;
        loop {
            match &lx.tok {
                T::Id("global") => {
                    lx.next();
                    break;
                }
                T::Id("constant") => {
                    lx.next();
                    is_const = true;
                    break;
                }
                T::Id("alias") => panic!("alias unsupported: {}", l),
                T::Id(x) => {
                    if *x == "external" || *x == "extern_weak" {
                        external = true;
                    }
                    lx.next();
                    if lx.isp(b'(') {
                        lx.skip_parens();
                    }
                }
                _ => panic!("global? {}", l),
            }
        }
        let ty = lx.ty(&named);
        let mut al = ty.align().max(8);
        if let Some(p) = l.rfind(", align ") {
            let r: String = l[p + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Ok(a) = r.parse::<u64>() {
                al = al.max(a);
            }
        }
        top = (top + al - 1) / al * al;
        m.gaddr.insert(name, top);
        let sz = ty.size().max(1);
        // position of the initialiser: re-lex later from the token position
        let tok_len = match &lx.tok {
            T::End => 0,
            _ => 1,
        };
        let _ = tok_len;
        gs.push(G { line: li, addr: top, ty, has_init: !external, pos: 0 });
        if is_const {
            m.const_ranges.push((top, top + sz));
        }
        top += sz;
        top += 8; // gap
    }
    m.gtop = top;
    let mut image = vec![0u8; (top - GBASE) as usize];
    {
        let mut cx = Ctx { m: &m, named: &named, regs: FxMap::default(), nregs: 0 };
        for g in &gs {
            let _ = g.pos;
            if !g.has_init {
                continue;
            }
            let l = lines[g.line];
            let mut lx = Lex::new(l);
            lx.next();
            lx.next();
            loop {
                if lx.isid("global") || lx.isid("constant") {
                    lx.next();
                    break;
                }
                lx.next();
                if lx.isp(b'(') {
                    lx.skip_parens();
                }
            }
            let t = lx.ty(&named);
            let v = cx.konst(&mut lx, &t);
            write_val(&mut image, (g.addr - GBASE) as usize, &v, &g.ty);
        }
    }
    m.image = image;
    // functions
    let mut parsed: Vec<(u32, Func)> = vec![];
    for &(s, e) in &flines {
        let name = func_header(lines[s]);
        let idx = m.fidx[&name];
        let f = parse_func(&m, &named, &lines[s..e], name);
        parsed.push((idx, f));
    }
    for (idx, f) in parsed {
        m.funcs[idx as usize] = f;
    }
    m
}

fn parse_func(m: &Module, named: &FxMap<String, Ty>, lines: &[&str], name: String) -> Func {
    let mut cx = Ctx { m, named, regs: FxMap::default(), nregs: 0 };
    // header parameters
    let h = lines[0];
    let at = h.find('@').unwrap();
    let rest = &h[at..];
    let mut lx = Lex::new(rest);
    lx.next();
    lx.expect(b'(');
    let mut nparams = 0;
    let mut byval = vec![];
    let mut unnamed = 0u32;
    while !lx.isp(b')') {
        if lx.isp(b'.') || lx.isid("...") {
            lx.next();
            continue;
        }
        let _t = lx.ty(named);
        let mut bv = None;
        // attributes
        loop {
            match &lx.tok {
                T::Id(x) => {
                    let x = *x;
                    lx.next();
                    if x == "align" && !lx.isp(b'(') {
                        lx.next();
                    } else if x == "byval" {
                        lx.expect(b'(');
                        bv = Some(lx.ty(named).size());
                        lx.expect(b')');
                    } else if lx.isp(b'(') {
                        lx.skip_parens();
                    }
                }
                T::Str(_) => {
                    lx.next();
                }
                _ => break,
            }
        }
        if let T::Loc(n) = lx.tok.clone() {
            lx.next();
            let r = cx.reg(&n);
            assert_eq!(r, nparams);
        } else {
            let r = cx.reg(&unnamed.to_string());
            assert_eq!(r, nparams);
            unnamed += 1;
        }
        nparams += 1;
        byval.push(bv);
        if !lx.eat(b',') {
            break;
        }
    }
    // split into logical instructions, handling multi-line (switch, invoke, landingpad)
    let mut bnames: FxMap<String, u32> = FxMap::default();
    let mut raw: Vec<(String, Vec<String>)> = vec![];
    let mut entry_named = false;
    let mut j = 1;
    while j < lines.len() {
        let l = lines[j];
        if l.is_empty() {
            j += 1;
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let nm = if let Some(q) = l.strip_prefix('"') {
                q[..q.find('"').unwrap()].to_string()
            } else {
                l[..l.find(':').unwrap()].to_string()
            };
            bnames.insert(nm.clone(), raw.len() as u32);
            raw.push((nm, vec![]));
            entry_named = true;
            j += 1;
            continue;
        }
        if raw.is_empty() {
            // implicit entry label: next unnamed number
            let nm = nparams_label(&byval, nparams);
            bnames.insert(nm.clone(), 0);
            raw.push((nm, vec![]));
        }
        let _ = entry_named;
        let t = l.trim_start();
        let mut full = t.to_string();
        if t.starts_with("switch ") {
            while !full.contains(']') {
                j += 1;
                full.push(' ');
                full.push_str(lines[j].trim());
            }
        } else if t.contains("invoke ") && (t.starts_with("invoke ") || t.contains(" = invoke ")) {
            j += 1;
            full.push(' ');
            full.push_str(lines[j].trim());
        } else if t.contains("landingpad") {
            while j + 1 < lines.len() && lines[j + 1].starts_with("          ") {
                j += 1;
            }
        }
        raw.last_mut().unwrap().1.push(full);
        j += 1;
    }
    // first pass: phis per block
    let nb = raw.len();
    let mut phis: Vec<Vec<(u32, Vec<(Opnd, u32)>)>> = vec![vec![]; nb];
    for (bi, (_, ins)) in raw.iter().enumerate() {
        for t in ins {
            if let Some(p) = t.find(" = phi ") {
                let mut lx = Lex::new(t);
                let dst = match lx.next() {
                    T::Loc(n) => cx.reg(&n),
                    _ => panic!("phi"),
                };
                let _ = p;
                lx.next();
                lx.next(); // phi
                lx.skip_attrs();
                let ty = lx.ty(named);
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let v = cx.value(&mut lx, &ty);
                    lx.expect(b',');
                    let bn = match lx.next() {
                        T::Loc(n) => n,
                        x => panic!("phi label {:?}", x),
                    };
                    lx.expect(b']');
                    inc.push((v, bnames[&bn]));
                    if !lx.eat(b',') || !lx.isp(b'[') {
                        break;
                    }
                }
                phis[bi].push((dst, inc));
            }
        }
    }
    let mut edges: Vec<Edge> = vec![];
    let mut blocks = vec![];
    for (bi, (_, ins)) in raw.iter().enumerate() {
        let mut out = vec![];
        for t in ins {
            if t.contains(" = phi ") {
                continue;
            }
            let ins = parse_instr(&mut cx, t, bi as u32, &bnames, &phis, &mut edges);
            if !matches!(ins, I::Nop) {
                out.push(ins);
            }
        }
        blocks.push(out);
    }
    Func { name, nparams, nregs: cx.nregs, blocks, edges, defined: true, byval }
}

fn nparams_label(_b: &[Option<u64>], n: u32) -> String {
    n.to_string()
}

fn parse_instr(
    cx: &mut Ctx,
    t: &str,
    bi: u32,
    bnames: &FxMap<String, u32>,
    phis: &[Vec<(u32, Vec<(Opnd, u32)>)>],
    edges: &mut Vec<Edge>,
) -> I {
    let mut lx = Lex::new(t);
    let mut dst: Option<u32> = None;
    if let T::Loc(n) = lx.tok.clone() {
        lx.next();
        lx.expect(b'=');
        dst = Some(cx.reg(&n));
    }
    let mut edge = |to: &str| -> usize {
        let b = bnames[to];
        let mut moves = vec![];
        for (d, inc) in &phis[b as usize] {
            let v = inc.iter().find(|x| x.1 == bi).unwrap_or_else(|| panic!("phi edge")).0.clone();
            moves.push((*d, v));
        }
        edges.push(Edge { to: b, moves });
        edges.len() - 1
    };
    let label = |lx: &mut Lex| -> String {
        assert!(lx.eatid("label"));
        match lx.next() {
            T::Loc(n) => n,
            x => panic!("label {:?}", x),
        }
    };
    let op = match lx.next() {
        T::Id(x) => x,
        x => panic!("instr {:?} in {}", x, t),
    };
    let bop = match op {
        "add" => Some(BinOp::Add),
        "sub" => Some(BinOp::Sub),
        "mul" => Some(BinOp::Mul),
        "udiv" => Some(BinOp::UDiv),
        "urem" => Some(BinOp::URem),
        "sdiv" => Some(BinOp::SDiv),
        "srem" => Some(BinOp::SRem),
        "and" => Some(BinOp::And),
        "or" => Some(BinOp::Or),
        "xor" => Some(BinOp::Xor),
        "shl" => Some(BinOp::Shl),
        "lshr" => Some(BinOp::LShr),
        "ashr" => Some(BinOp::AShr),
        _ => None,
    };
    if let Some(b) = bop {
        lx.skip_attrs();
        let ty = lx.ty(cx.named);
        let a = cx.value(&mut lx, &ty);
        lx.expect(b',');
        let c = cx.value(&mut lx, &ty);
        return match &ty {
            Ty::Vector(n, e) => I::BinV(b, e.w(), *n, dst.unwrap(), a, c),
            _ => I::Bin(b, ty.w(), dst.unwrap(), a, c),
        };
    }
    match op {
        "icmp" => {
            while lx.isid("samesign") {
                lx.next();
            }
            let p = match lx.next() {
                T::Id(x) => match x {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("pred {}", x),
                },
                _ => panic!(),
            };
            let ty = lx.ty(cx.named);
            let a = cx.value(&mut lx, &ty);
            lx.expect(b',');
            let c = cx.value(&mut lx, &ty);
            match &ty {
                Ty::Vector(n, e) => I::CmpV(p, e.w(), *n, dst.unwrap(), a, c),
                _ => I::Cmp(p, ty.w(), dst.unwrap(), a, c),
            }
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
            lx.skip_attrs();
            let (ft, v) = cx.tyval(&mut lx);
            assert!(lx.eatid("to"), "{}", t);
            let tt = lx.ty(cx.named);
            let c = match op {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::ZExt,
                "sext" => CastOp::SExt,
                "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                    if tt.w() < ft.w() {
                        CastOp::Trunc
                    } else {
                        CastOp::ZExt
                    }
                }
                _ => CastOp::Bit,
            };
            let isv = matches!(ft, Ty::Vector(..)) || matches!(tt, Ty::Vector(..));
            if isv {
                I::CastV(c, ft, tt, dst.unwrap(), v)
            } else if c == CastOp::Bit || ft.w() == tt.w() {
                I::Copy(dst.unwrap(), v)
            } else {
                I::Cast(c, ft.w(), tt.w(), dst.unwrap(), v)
            }
        }
        "freeze" => {
            let (_, v) = cx.tyval(&mut lx);
            I::Copy(dst.unwrap(), v)
        }
        "load" => {
            while lx.isid("atomic") || lx.isid("volatile") {
                lx.next();
            }
            let ty = lx.ty(cx.named);
            lx.expect(b',');
            let (_, p) = cx.tyval(&mut lx);
            I::Load(dst.unwrap(), ty, p)
        }
        "store" => {
            while lx.isid("atomic") || lx.isid("volatile") {
                lx.next();
            }
            let (ty, v) = cx.tyval(&mut lx);
            lx.expect(b',');
            let (_, p) = cx.tyval(&mut lx);
            I::Store(ty, v, p)
        }
        "getelementptr" => {
            loop {
                if lx.is_type_start() {
                    break;
                }
                lx.next();
                if lx.isp(b'(') {
                    lx.skip_parens();
                }
            }
            let src = lx.ty(cx.named);
            lx.expect(b',');
            let (_, base) = cx.tyval(&mut lx);
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = src.clone();
            let mut first = true;
            while lx.eat(b',') {
                if lx.tok == T::Meta {
                    break;
                }
                let (it, iv) = cx.tyval(&mut lx);
                let scale;
                if first {
                    scale = src.size() as i64;
                    first = false;
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let k = match iv {
                                Opnd::K(Val::C(k)) => k as usize,
                                _ => panic!("struct gep"),
                            };
                            off += cur.field_off(k) as i64;
                            let n = cur.field(k).clone();
                            cur = n;
                            continue;
                        }
                        _ => {
                            let n = cur.field(0).clone();
                            scale = n.size() as i64;
                            cur = n;
                        }
                    }
                }
                match iv {
                    Opnd::K(Val::C(k)) => off += crate::expr::sext(k, it.w()).wrapping_mul(scale),
                    o => idx.push((o, scale, it.w())),
                }
            }
            I::Gep(dst.unwrap(), base, off, idx)
        }
        "alloca" => {
            lx.eatid("inalloca");
            let ty = lx.ty(cx.named);
            let mut al = ty.align();
            let mut cnt = Opnd::K(Val::C(1));
            while lx.eat(b',') {
                if lx.eatid("align") {
                    al = lx.num() as u64;
                } else if lx.tok == T::Meta {
                    break;
                } else if lx.isid("addrspace") {
                    break;
                } else {
                    cnt = cx.tyval(&mut lx).1;
                }
            }
            I::Alloca(dst.unwrap(), ty.size(), al, cnt)
        }
        "select" => {
            lx.skip_attrs();
            let (ct, c) = cx.tyval(&mut lx);
            lx.expect(b',');
            let (ty, a) = cx.tyval(&mut lx);
            lx.expect(b',');
            let (_, b) = cx.tyval(&mut lx);
            I::Select(dst.unwrap(), c, a, b, ty, matches!(ct, Ty::Vector(..)))
        }
        "extractvalue" => {
            let (_, a) = cx.tyval(&mut lx);
            let mut path = vec![];
            while lx.eat(b',') {
                if lx.tok == T::Meta {
                    break;
                }
                path.push(lx.num() as u32);
            }
            I::ExtractValue(dst.unwrap(), a, path)
        }
        "insertvalue" => {
            let (_, a) = cx.tyval(&mut lx);
            lx.expect(b',');
            let (_, v) = cx.tyval(&mut lx);
            let mut path = vec![];
            while lx.eat(b',') {
                if lx.tok == T::Meta {
                    break;
                }
                path.push(lx.num() as u32);
            }
            I::InsertValue(dst.unwrap(), a, v, path)
        }
        "extractelement" => {
            let (_, a) = cx.tyval(&mut lx);
            lx.expect(b',');
            let (_, ix) = cx.tyval(&mut lx);
            I::ExtractElem(dst.unwrap(), a, ix)
        }
        "insertelement" => {
            let (t, a) = cx.tyval(&mut lx);
            lx.expect(b',');
            let (_, v) = cx.tyval(&mut lx);
            lx.expect(b',');
            let (_, ix) = cx.tyval(&mut lx);
            let n = match t {
                Ty::Vector(n, _) => n,
                _ => 0,
            };
            I::InsertElem(dst.unwrap(), a, v, ix, n)
        }
        "shufflevector" => {
            let (t, a) = cx.tyval(&mut lx);
            lx.expect(b',');
            let (_, b) = cx.tyval(&mut lx);
            lx.expect(b',');
            let (_, mk) = cx.tyval(&mut lx);
            let n = match t {
                Ty::Vector(n, _) => n,
                _ => 0,
            };
            let idx = match mk {
                Opnd::K(Val::Agg(v)) => v
                    .iter()
                    .map(|x| match x {
                        Val::C(k) => *k as i64,
                        _ => 0,
                    })
                    .collect(),
                _ => panic!("shuffle mask"),
            };
            I::Shuffle(dst.unwrap(), a, b, idx, n)
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if op != "call" && op != "invoke" {
                lx.next();
            }
            // calling convention, attributes
            lx.skip_attrs();
            let rt = lx.ty(cx.named);
            if lx.isp(b'(') {
                lx.skip_parens();
            }
            let callee = match lx.next() {
                T::Glob(n) => {
                    if n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.donothing")
                        || n.starts_with("llvm.x86.sse2.pause")
                        || n.starts_with("llvm.prefetch")
                    {
                        return I::Nop;
                    }
                    Callee::Func(*cx.m.fidx.get(&n).unwrap_or_else(|| panic!("callee {}", n)))
                }
                T::Loc(n) => Callee::Ptr(Opnd::R(cx.reg(&n))),
                T::Id("asm") => {
                    return I::Unsupported(format!("inline asm: {}", t));
                }
                x => panic!("callee {:?} in {}", x, t),
            };
            lx.expect(b'(');
            let mut args = vec![];
            while !lx.isp(b')') {
                let ty = lx.ty(cx.named);
                if ty == Ty::Other {
                    // metadata argument
                    while !lx.isp(b',') && !lx.isp(b')') {
                        if lx.isp(b'(') {
                            lx.skip_parens();
                        } else {
                            lx.next();
                        }
                    }
                } else {
                    args.push(cx.value(&mut lx, &ty));
                }
                if !lx.eat(b',') {
                    break;
                }
            }
            lx.expect(b')');
            let mut normal = None;
            if op == "invoke" {
                while !lx.isid("to") {
                    lx.next();
                }
                lx.next();
                let l = label(&mut lx);
                normal = Some(edge(&l));
            }
            I::Call(dst, callee, args, rt, normal)
        }
        "br" => {
            if lx.isid("label") {
                let l = label(&mut lx);
                I::Br(edge(&l))
            } else {
                let (_, c) = cx.tyval(&mut lx);
                lx.expect(b',');
                let a = label(&mut lx);
                lx.expect(b',');
                let b = label(&mut lx);
                let e1 = edge(&a);
                let e2 = edge(&b);
                I::CondBr(c, e1, e2)
            }
        }
        "switch" => {
            let (ty, v) = cx.tyval(&mut lx);
            lx.expect(b',');
            let d = label(&mut lx);
            let de = edge(&d);
            lx.expect(b'[');
            let mut cases = vec![];
            let mut eds: FxMap<String, usize> = FxMap::default();
            while !lx.isp(b']') {
                let ct = lx.ty(cx.named);
                let k = match cx.konst(&mut lx, &ct) {
                    Val::C(k) => k,
                    _ => return I::Unsupported(t.to_string()),
                };
                lx.expect(b',');
                let l = label(&mut lx);
                let e = *eds.entry(l.clone()).or_insert_with(|| edge(&l));
                cases.push((k, e));
            }
            let map = if cases.len() > 8 { Some(Arc::new(cases.iter().cloned().collect::<FxMap<u64, usize>>())) } else { None };
            I::Switch(v, ty.w(), de, cases, map)
        }
        "ret" => {
            if lx.isid("void") {
                I::Ret(None)
            } else {
                let (_, v) = cx.tyval(&mut lx);
                I::Ret(Some(v))
            }
        }
        "unreachable" => I::Unreachable,
        "resume" => I::Unreachable,
        "landingpad" => I::LandingPad,
        "fence" => I::Nop,
        "atomicrmw" => {
            while lx.isid("volatile") {
                lx.next();
            }
            let o = match lx.next() {
                T::Id(x) => x.to_string(),
                _ => panic!(),
            };
            let (_, p) = cx.tyval(&mut lx);
            lx.expect(b',');
            let (ty, v) = cx.tyval(&mut lx);
            I::Rmw(dst.unwrap(), o, ty, p, v)
        }
        "cmpxchg" => {
            while lx.isid("weak") || lx.isid("volatile") {
                lx.next();
            }
            let (_, p) = cx.tyval(&mut lx);
            lx.expect(b',');
            let (ty, c) = cx.tyval(&mut lx);
            lx.expect(b',');
            let (_, n) = cx.tyval(&mut lx);
            I::CmpXchg(dst.unwrap(), ty, p, c, n)
        }
        _ => I::Unsupported(t.to_string()),
    }
}
