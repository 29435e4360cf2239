//! Flat byte memory with a symbolic shadow and an undo log (address == index).
use std::alloc::{alloc_zeroed, Layout};

pub const STACK_BASE: u64 = 0x0200_0000;
pub const STACK_END: u64 = 0x0300_0000;
pub const HEAP_BASE: u64 = 0x0300_0000;
pub const HEAP_END: u64 = 0x0f00_0000;
const LINE: u32 = 6;

pub struct Undo {
    pub old: u64,
    pub addr: u32,
    pub sh: u32, // shadow of a single byte when len == 0
    pub len: u8, // 1..=8: plain bytes, 0: one byte with its shadow
}

pub struct Mem {
    bytes: *mut u8,
    shadow: *mut u32,
    lines: *mut u8,
    pub sp: u64,
    pub hp: u64,
    pub undo: Vec<Undo>,
    pub log_sp: u64, // stack addresses below this must be logged
    pub log_hp: u64, // heap addresses below this must be logged
    pub logging: bool,
    pub gtop: u64,
}

fn zalloc<T>(n: usize) -> *mut T {
    unsafe { alloc_zeroed(Layout::array::<T>(n).unwrap()) as *mut T }
}

pub enum Byte {
    C(u8),
    S(u32),
}

impl Mem {
    pub fn new(gbase: u64, image: &[u8], gtop: u64) -> Mem {
        assert!(gtop < STACK_BASE, "globals too large");
        let n = HEAP_END as usize;
        let m = Mem {
            bytes: zalloc::<u8>(n),
            shadow: zalloc::<u32>(n),
            lines: zalloc::<u8>(n >> LINE),
            sp: STACK_BASE,
            hp: HEAP_BASE,
            undo: vec![],
            log_sp: 0,
            log_hp: 0,
            logging: false,
            gtop,
        };
        unsafe {
            std::ptr::copy_nonoverlapping(image.as_ptr(), m.bytes.add(gbase as usize), image.len());
        }
        m
    }
    #[inline]
    pub fn valid(&self, a: u64, n: u64) -> bool {
        (a >= crate::ir::GBASE && a.wrapping_add(n) <= self.gtop)
            || (a >= STACK_BASE && a.wrapping_add(n) <= self.sp)
            || (a >= HEAP_BASE && a.wrapping_add(n) <= self.hp)
    }
    #[inline]
    pub fn has_sym(&self, a: u64, n: u64) -> bool {
        unsafe {
            let mut l = a >> LINE;
            let e = (a + n - 1) >> LINE;
            while l <= e {
                if *self.lines.add(l as usize) != 0 {
                    return true;
                }
                l += 1;
            }
            false
        }
    }
    #[inline]
    fn need_log(&self, a: u64) -> bool {
        self.logging
            && (a < STACK_BASE || (a < STACK_END && a < self.log_sp) || (a >= HEAP_BASE && a < self.log_hp))
    }
    /// little-endian read of n<=8 concrete bytes (caller checked has_sym == false)
    #[inline]
    pub fn read(&self, a: u64, n: u64) -> u64 {
        unsafe {
            let p = self.bytes.add(a as usize);
            match n {
                1 => *p as u64,
                2 => (p as *const u16).read_unaligned() as u64,
                4 => (p as *const u32).read_unaligned() as u64,
                8 => (p as *const u64).read_unaligned(),
                _ => {
                    let mut v = 0u64;
                    for i in 0..n {
                        v |= (*p.add(i as usize) as u64) << (8 * i);
                    }
                    v
                }
            }
        }
    }
    #[inline]
    fn raw_write(&mut self, a: u64, n: u64, v: u64) {
        unsafe {
            let p = self.bytes.add(a as usize);
            match n {
                1 => *p = v as u8,
                2 => (p as *mut u16).write_unaligned(v as u16),
                4 => (p as *mut u32).write_unaligned(v as u32),
                8 => (p as *mut u64).write_unaligned(v),
                _ => {
                    for i in 0..n {
                        *p.add(i as usize) = (v >> (8 * i)) as u8;
                    }
                }
            }
        }
    }
    #[inline]
    pub fn write(&mut self, a: u64, n: u64, v: u64) {
        if self.has_sym(a, n) {
            for i in 0..n {
                self.put(a + i, Byte::C((v >> (8 * i)) as u8));
            }
            return;
        }
        if self.need_log(a) {
            let old = self.read(a, n);
            self.undo.push(Undo { old, addr: a as u32, sh: 0, len: n as u8 });
        }
        self.raw_write(a, n, v);
    }
    #[inline]
    pub fn get(&self, a: u64) -> Byte {
        unsafe {
            let s = *self.shadow.add(a as usize);
            if s != 0 {
                Byte::S(s)
            } else {
                Byte::C(*self.bytes.add(a as usize))
            }
        }
    }
    pub fn put(&mut self, a: u64, b: Byte) {
        unsafe {
            let s = self.shadow.add(a as usize);
            let p = self.bytes.add(a as usize);
            if self.need_log(a) {
                self.undo.push(Undo { old: *p as u64, addr: a as u32, sh: *s, len: 0 });
            }
            match b {
                Byte::C(x) => {
                    *s = 0;
                    *p = x;
                }
                Byte::S(e) => {
                    *s = e;
                    *self.lines.add((a >> LINE) as usize) = 1;
                }
            }
        }
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s {
            return;
        }
        if !self.has_sym(s, n) && !self.has_sym(d, n) {
            if self.need_log(d) || self.need_log(d + n - 1) {
                let mut i = 0;
                while i < n {
                    let k = (n - i).min(8);
                    let old = self.read(d + i, k);
                    self.undo.push(Undo { old, addr: (d + i) as u32, sh: 0, len: k as u8 });
                    i += k;
                }
            }
            unsafe {
                std::ptr::copy(self.bytes.add(s as usize), self.bytes.add(d as usize), n as usize);
            }
            return;
        }
        if d < s {
            for i in 0..n {
                let b = self.get(s + i);
                self.put(d + i, b);
            }
        } else {
            for i in (0..n).rev() {
                let b = self.get(s + i);
                self.put(d + i, b);
            }
        }
    }
    pub fn fill(&mut self, d: u64, n: u64, v: u8) {
        let w = v as u64 * 0x0101_0101_0101_0101;
        let mut i = 0;
        while i < n {
            let k = (n - i).min(8);
            let k = if k == 8 { 8 } else { 1 };
            self.write(d + i, k, if k == 8 { w } else { v as u64 });
            i += k;
        }
    }
    /// scrub a freshly allocated block (it may hold leftovers of an abandoned path)
    pub fn fresh(&mut self, a: u64, n: u64) {
        unsafe {
            let mut l = a >> LINE;
            let e = (a + n.max(1) - 1) >> LINE;
            while l <= e {
                if *self.lines.add(l as usize) != 0 {
                    let lo = (l << LINE).max(a);
                    let hi = ((l + 1) << LINE).min(a + n);
                    for x in lo..hi {
                        *self.shadow.add(x as usize) = 0;
                    }
                    // a line fully inside the block becomes clean
                    if lo == l << LINE && hi == (l + 1) << LINE {
                        *self.lines.add(l as usize) = 0;
                    }
                }
                l += 1;
            }
            std::ptr::write_bytes(self.bytes.add(a as usize), 0, n as usize);
        }
    }
    pub fn rollback(&mut self, to: usize) {
        while self.undo.len() > to {
            let u = self.undo.pop().unwrap();
            if u.len == 0 {
                unsafe {
                    *self.shadow.add(u.addr as usize) = u.sh;
                    *self.bytes.add(u.addr as usize) = u.old as u8;
                    if u.sh != 0 {
                        *self.lines.add((u.addr >> LINE) as usize) = 1;
                    }
                }
            } else {
                self.raw_write(u.addr as u64, u.len as u64, u.old);
            }
        }
    }
}
