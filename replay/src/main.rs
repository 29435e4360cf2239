//! Runs harness entry points natively, on the values that the solver found.
//!   replay FILE      one case per line: FN PARAM ID=VALUE,ID=VALUE,...
//! prints per case: `END outs` | `ASSERT code` | `PANIC message` | `ASSUME`
#[path = "../../harness/src/checks.rs"]
mod checks;
#[path = "../../harness/src/cmp.rs"]
mod cmp;
#[path = "../../harness/src/fs.rs"]
mod fs;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/init.rs"]
mod init;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/ser.rs"]
mod ser;
/// the harness's interface to its inputs, answered from the given values
mod sym {
    use std::cell::RefCell;
    use std::collections::HashMap;
    #[derive(Default)]
    pub struct State {
        pub values: HashMap<u32, u64>,
        pub param: u32,
        pub out: Vec<u64>,
        pub panic_ok: bool,
    }
    thread_local!(pub static S: RefCell<State> = RefCell::default());
    pub struct AssertFailed(pub u32);
    pub struct AssumeFailed;
    fn val(id: u32, lo: u32, hi: u32) -> u32 {
        let v = S.with(|s| s.borrow().values.get(&id).copied()).unwrap_or(lo as u64) as u32;
        if v < lo || v > hi {
            std::panic::panic_any(AssumeFailed);
        }
        v
    }
    pub fn byte(id: u32, lo: u32, hi: u32) -> u8 {
        val(id, lo, hi) as u8
    }
    pub fn word(id: u32, lo: u32, hi: u32) -> u32 {
        val(id, lo, hi)
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumeFailed);
        }
    }
    pub fn check(c: bool, code: u32) {
        if !c {
            std::panic::panic_any(AssertFailed(code));
        }
    }
    pub fn cover(_: u32) {}
    pub fn fork(v: u32) -> u32 {
        v
    }
    pub fn out(v: u32) {
        S.with(|s| s.borrow_mut().out.push(v as u64));
    }
    pub fn param() -> u32 {
        S.with(|s| s.borrow().param)
    }
    #[allow(dead_code)]
    pub fn panic_ok(v: bool) {
        S.with(|s| s.borrow_mut().panic_ok = v);
    }
}
mod table {
    include!(concat!(env!("OUT_DIR"), "/table.rs"));
}
/// the entry points are `extern "C"`, which a panic may not leave: so they run on a thread of their
/// own process when they are expected to panic, and here the message is printed by the panic hook
fn main() {
    let f = std::env::args().nth(1).expect("replay FILE");
    let t = std::fs::read_to_string(f).expect("read the case file");
    std::panic::set_hook(Box::new(|i| {
        use std::io::Write;
        let p = i.payload();
        let line = if let Some(a) = p.downcast_ref::<sym::AssertFailed>() {
            format!("ASSERT {}", a.0)
        } else if p.downcast_ref::<sym::AssumeFailed>().is_some() {
            "ASSUME".to_string()
        } else if sym::S.with(|s| s.try_borrow().map_or(false, |s| s.panic_ok)) {
            let o: Vec<String> = sym::S.with(|s| s.borrow().out.iter().map(|x| x.to_string()).collect());
            format!("END {}", o.join(" "))
        } else {
            format!("PANIC {}", i.to_string().replace('\n', " "))
        };
        let mut o = std::io::stdout();
        let _ = writeln!(o, "{}", line);
        let _ = o.flush();
        // the case ends here
        std::process::exit(0);
    }));
    table::call("h_init");
    let from: usize = std::env::args().nth(2).map_or(0, |x| x.parse().unwrap());
    for l in t.lines().skip(from) {
        let mut w = l.split_whitespace();
        let name = w.next().unwrap();
        let param: u32 = w.next().unwrap().parse().unwrap();
        let mut values = std::collections::HashMap::new();
        if let Some(v) = w.next() {
            for kv in v.split(',') {
                let (k, v) = kv.split_once('=').unwrap();
                values.insert(k.parse().unwrap(), v.parse().unwrap());
            }
        }
        sym::S.with(|s| *s.borrow_mut() = sym::State { values, param, ..Default::default() });
        table::call(name);
        let o: Vec<String> = sym::S.with(|s| s.borrow().out.iter().map(|x| x.to_string()).collect());
        println!("END {}", o.join(" "));
    }
}
