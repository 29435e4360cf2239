//! A few files behind the C library calls of std::fs: contents, short reads and faults are inputs.
//! Linked into the symbolic program and into the replayer (where other files go to the kernel).
//! The current directory is /sym/d. The file that is asked for lies at one of PLACES; there is a
//! decoy at each of the others.
use std::os::raw::{c_char, c_int};
extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut c_int;
    fn malloc(n: usize) -> *mut u8;
}
const FD: c_int = 700;
const DECOY: &[u8] = b"<decoy></decoy>";
const CWD: &[u8] = b"/sym/d";
pub const PLACES: [&[u8]; 5] = [b"/sym/d/doc.html", b"/sym/d/sub/doc.html", b"/sym/doc.html", b"/doc.html", b"/sub/doc.html"];
/// what is asked for, and the place that means
pub const NAMES: [(&str, usize); 9] = [
    ("/sym/d/doc.html", 0),
    ("doc.html", 0),
    ("sub/doc.html", 1),
    ("./doc.html", 0),
    ("../doc.html", 2),
    ("/doc.html", 3),
    ("/sym/d/sub/../doc.html", 0),
    ("./sub/doc.html", 1),
    ("/sym/d/sub/doc.html", 1),
];
const DIRS: [&[u8]; 5] = [b"/sym/d/sub", b"/sym/d", b"/sym", b"/sub", b"/"];
#[derive(Clone, Copy)]
pub struct Read {
    /// at most that many bytes; 0: fails with `errno`
    pub max: usize,
    pub errno: c_int,
}
pub struct File {
    pub active: bool,
    pub exists: bool,
    pub place: usize,
    pub data: Vec<u8>,
    /// position in each of the files
    pub pos: [usize; 5],
    pub plan: Vec<Read>,
    pub reads: usize,
    /// a fault that ends the reading was reported
    pub faulted: bool,
    pub open: u32,
    pub closed: u32,
}
static mut F: File =
    File { active: false, exists: false, place: 0, data: Vec::new(), pos: [0; 5], plan: Vec::new(), reads: 0, faulted: false, open: 0, closed: 0 };
#[allow(static_mut_refs)]
pub fn file() -> &'static mut File {
    unsafe { &mut F }
}
pub fn install(exists: bool, place: usize, data: Vec<u8>, plan: Vec<Read>) {
    *file() = File { active: true, exists, place, data, pos: [0; 5], plan, reads: 0, faulted: false, open: 0, closed: 0 };
}
pub fn remove() {
    file().active = false;
}
/// the absolute name, without `.` and `..`
unsafe fn absolute(p: *const c_char) -> Vec<u8> {
    let mut o: Vec<u8> = Vec::with_capacity(64);
    let mut i = 0;
    if *p as u8 != b'/' {
        o.extend_from_slice(CWD);
    }
    loop {
        while *p.add(i) as u8 == b'/' {
            i += 1;
        }
        if *p.add(i) == 0 {
            break;
        }
        let from = i;
        while *p.add(i) != 0 && *p.add(i) as u8 != b'/' {
            i += 1;
        }
        let dot = *p.add(from) as u8 == b'.';
        if i - from == 1 && dot {
            continue;
        }
        if i - from == 2 && dot && *p.add(from + 1) as u8 == b'.' {
            while let Some(c) = o.pop() {
                if c == b'/' {
                    break;
                }
            }
            continue;
        }
        o.push(b'/');
        for k in from..i {
            o.push(*p.add(k) as u8);
        }
    }
    if o.is_empty() {
        o.push(b'/');
    }
    o
}
enum What {
    File(usize),
    Dir,
    None,
}
unsafe fn find(path: *const c_char) -> What {
    let a = absolute(path);
    for (i, p) in PLACES.iter().enumerate() {
        if a.as_slice() == *p {
            return if i != file().place || file().exists { What::File(i) } else { What::None };
        }
    }
    for d in DIRS.iter() {
        if a.as_slice() == *d {
            return What::Dir;
        }
    }
    What::None
}
fn content(i: usize) -> &'static [u8] {
    if i == file().place {
        &file().data
    } else {
        DECOY
    }
}
fn ours(fd: c_int) -> bool {
    file().active && fd >= FD && fd < FD + 5
}
unsafe fn fail(e: c_int) -> i64 {
    *__errno_location() = e;
    -1
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    let f = file();
    if !f.active {
        return syscall(257, -100i64, path, flags as i64, mode as i64) as c_int;
    }
    match find(path) {
        What::File(i) => {
            f.open += 1;
            f.pos[i] = 0;
            FD + i as c_int
        }
        What::Dir => fail(21) as c_int,
        What::None => fail(2) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if !file().active {
        return syscall(257, dir as i64, path, flags as i64, mode as i64) as c_int;
    }
    open64(path, flags, mode)
}
unsafe fn read_at(i: usize, at: usize, buf: *mut u8, n: usize) -> isize {
    let f = file();
    let data = content(i);
    let mut max = if at < data.len() { n.min(data.len() - at) } else { 0 };
    if f.reads < f.plan.len() {
        let r = f.plan[f.reads];
        f.reads += 1;
        if r.max == 0 {
            f.faulted |= r.errno != 4;
            return fail(r.errno) as isize;
        }
        if r.max < max {
            max = r.max;
        }
    }
    for k in 0..max {
        *buf.add(k) = data[at + k];
    }
    max as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, n: usize) -> isize {
    if !ours(fd) {
        return syscall(0, fd as i64, buf, n) as isize;
    }
    let i = (fd - FD) as usize;
    let got = read_at(i, file().pos[i], buf, n);
    if got > 0 {
        file().pos[i] += got as usize;
    }
    got
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut u8, n: usize, at: i64) -> isize {
    if !ours(fd) {
        return syscall(17, fd as i64, buf, n, at) as isize;
    }
    read_at((fd - FD) as usize, at as usize, buf, n)
}
#[repr(C)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}
/// fills the first buffer only
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    if !ours(fd) {
        return syscall(19, fd as i64, v, n as i64) as isize;
    }
    for k in 0..n as usize {
        let b = &*v.add(k);
        if b.len > 0 {
            return read(fd, b.base, b.len);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ours(fd) {
        file().closed += 1;
        return 0;
    }
    syscall(3, fd as i64) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut u8, n: usize) -> *mut u8 {
    if !file().active {
        return if syscall(79, buf, n) < 0 { std::ptr::null_mut() } else { buf };
    }
    if n < CWD.len() + 1 {
        fail(34);
        return std::ptr::null_mut();
    }
    for (i, &b) in CWD.iter().enumerate() {
        *buf.add(i) = b;
    }
    *buf.add(CWD.len()) = 0;
    buf
}
/// (only ever asked with a null buffer)
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, _buf: *mut u8) -> *mut u8 {
    match find(path) {
        What::None => {
            fail(2);
            std::ptr::null_mut()
        }
        _ => {
            let a = absolute(path);
            let p = malloc(a.len() + 1);
            for (i, &b) in a.iter().enumerate() {
                *p.add(i) = b;
            }
            *p.add(a.len()) = 0;
            p
        }
    }
}
const REG: u32 = 0o100644;
const DIR: u32 = 0o40755;
unsafe fn put_stat(buf: *mut u8, mode: u32, size: usize) -> c_int {
    for i in 0..144 {
        *buf.add(i) = 0;
    }
    *(buf.add(24) as *mut u32) = mode;
    *(buf.add(48) as *mut u64) = size as u64;
    0
}
unsafe fn stat_path(path: *const c_char, buf: *mut u8) -> c_int {
    match find(path) {
        What::File(i) => put_stat(buf, REG, content(i).len()),
        What::Dir => put_stat(buf, DIR, 0),
        What::None => fail(2) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut u8) -> c_int {
    if !file().active {
        return syscall(4, path, buf) as c_int;
    }
    stat_path(path, buf)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut u8) -> c_int {
    if !file().active {
        return syscall(6, path, buf) as c_int;
    }
    stat_path(path, buf)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut u8) -> c_int {
    if ours(fd) {
        return put_stat(buf, REG, content((fd - FD) as usize).len());
    }
    syscall(5, fd as i64, buf) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if !file().active {
        return syscall(21, path, mode as i64) as c_int;
    }
    match find(path) {
        What::None => fail(2) as c_int,
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut u8, n: usize) -> isize {
    if !file().active {
        return syscall(89, path, buf, n) as isize;
    }
    match find(path) {
        What::None => fail(2) as isize,
        _ => fail(22) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut u8) -> c_int {
    if file().active && (path.is_null() || buf.is_null()) {
        return fail(14) as c_int;
    }
    if !file().active || (*path == 0 && !ours(dir)) {
        return syscall(332, dir as i64, path, flags as i64, mask as i64, buf) as c_int;
    }
    let (mode, size) = if *path == 0 {
        (REG, content((dir - FD) as usize).len())
    } else {
        match find(path) {
            What::File(i) => (REG, content(i).len()),
            What::Dir => (DIR, 0),
            What::None => return fail(2) as c_int,
        }
    };
    for i in 0..256 {
        *buf.add(i) = 0;
    }
    *(buf as *mut u32) = 0x7ff;
    *(buf.add(28) as *mut u16) = mode as u16;
    *(buf.add(40) as *mut u64) = size as u64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if !ours(fd) {
        return syscall(8, fd as i64, off, whence as i64);
    }
    let i = (fd - FD) as usize;
    let base = match whence {
        0 => 0,
        1 => file().pos[i] as i64,
        _ => content(i).len() as i64,
    };
    if base + off < 0 {
        return fail(22);
    }
    file().pos[i] = (base + off) as usize;
    base + off
}
