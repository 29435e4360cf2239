//! symex: bounded symbolic execution of LLVM IR with z3.
//!   symex IR.ll --job FN:LO-HI [--job ...] [--init FN] [--threads N] [--deadline S]
//!         [--steps N] [--max-viol N] [--samples N] [--dump-queries N]   -> JSON on stdout
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use exec::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

#[derive(Clone)]
struct Job {
    spec: usize,
    f: u32,
    param: u64,
    pre: Option<Prefix>,
}

#[derive(Default, Clone)]
struct JobStat {
    paths: u64,
    infeasible: u64,
    allowed_panics: u64,
    steps: u64,
    max_path_steps: u64,
    asserts: u64,
    incomplete: u64,
}

#[derive(Default)]
struct Shared {
    stats: BTreeMap<(usize, u64), JobStat>,
    viol: Vec<(usize, u64, Violation)>,
    viol_codes: BTreeMap<(usize, String, String), u32>,
    errors: Vec<String>,
    covers: BTreeMap<(usize, u32), u64>,
    funcs: std::collections::BTreeSet<u32>,
    solver: solver::Stats,
    samples: Vec<(usize, u64, Vec<(u32, u64)>, Vec<u64>, String)>,
    queries: Vec<(String, bool)>,
    exprs: u64,
}

struct Q {
    q: VecDeque<Job>,
    active: usize,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let t0 = Instant::now();
    let args: Vec<String> = std::env::args().collect();
    let mut path = String::new();
    let mut specs: Vec<(String, u64, u64)> = vec![];
    let mut init: Option<String> = None;
    let mut threads = 8usize;
    let mut deadline = 600f64;
    let mut steps = 50_000_000u64;
    let mut max_viol = 8usize;
    let mut nsamples = 0usize;
    let mut ndump = 0usize;
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--job" => {
                let s = nx();
                let (f, r) = s.split_once(':').unwrap_or((&s, "0-0"));
                let (lo, hi) = r.split_once('-').unwrap_or((r, r));
                specs.push((f.to_string(), lo.parse().unwrap(), hi.parse().unwrap()));
            }
            "--init" => init = Some(nx()),
            "--threads" => threads = nx().parse().unwrap(),
            "--deadline" => deadline = nx().parse().unwrap(),
            "--steps" => steps = nx().parse().unwrap(),
            "--max-viol" => max_viol = nx().parse().unwrap(),
            "--samples" => nsamples = nx().parse().unwrap(),
            "--dump-queries" => ndump = nx().parse().unwrap(),
            _ => path = a.to_string(),
        }
        i += 1;
    }
    let src = std::fs::read_to_string(&path).expect("read IR");
    let m = ir::parse(&src);
    drop(src);
    let t_parse = t0.elapsed().as_secs_f64();
    let ext: Vec<Ext> = m.funcs.iter().map(|f| exec::classify(&f.name)).collect();
    let mut q = VecDeque::new();
    for (si, (f, lo, hi)) in specs.iter().enumerate() {
        let idx = match m.fidx.get(f) {
            Some(x) => *x,
            None => {
                println!("{{\"fatal\": {}}}", js(&format!("no harness {}", f)));
                std::process::exit(3);
            }
        };
        for p in *lo..=*hi {
            q.push_back(Job { spec: si, f: idx, param: p, pre: None });
        }
    }
    let njobs = q.len();
    let queue = Mutex::new(Q { q, active: 0 });
    let cv = Condvar::new();
    let hungry = AtomicUsize::new(0);
    let halt = AtomicBool::new(false);
    let unsupported = std::sync::atomic::AtomicU64::new(0);
    let timed_out = AtomicBool::new(false);
    let shared = Mutex::new(Shared::default());
    let verbose = std::env::var("SYMEX_V").is_ok();

    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || {
                    let mut ex = Exec::new(&m, &ext);
                    ex.step_limit = u64::MAX;
                    if ndump > 0 {
                        ex.sol.dump = Some(vec![]);
                        ex.sol.dump_limit = ndump;
                    }
                    if let Some(n) = &init {
                        if let Err(e) = ex.init(n) {
                            shared.lock().unwrap().errors.push(e);
                            halt.store(true, Ordering::SeqCst);
                        }
                    } else {
                        ex.set_base();
                    }
                    ex.step_limit = steps;
                    loop {
                        let job = {
                            let mut g = queue.lock().unwrap();
                            loop {
                                if halt.load(Ordering::SeqCst) {
                                    break None;
                                }
                                if let Some(j) = g.q.pop_front() {
                                    g.active += 1;
                                    break Some(j);
                                }
                                if g.active == 0 {
                                    cv.notify_all();
                                    break None;
                                }
                                hungry.fetch_add(1, Ordering::SeqCst);
                                g = cv.wait_timeout(g, std::time::Duration::from_millis(20)).unwrap().0;
                                hungry.fetch_sub(1, Ordering::SeqCst);
                            }
                        };
                        let job = match job {
                            Some(j) => j,
                            None => break,
                        };
                        let mut st = JobStat::default();
                        ex.covers.clear();
                        ex.asserts = 0;
                        ex.total_steps = 0;
                        let jt = Instant::now();
                        if let Err(e) = ex.start(job.f, job.param, job.pre.as_ref()) {
                            shared.lock().unwrap().errors.push(e);
                            halt.store(true, Ordering::SeqCst);
                        }
                        let mut loc_samples = vec![];
                        loop {
                            if halt.load(Ordering::SeqCst) {
                                st.incomplete += 1;
                                break;
                            }
                            let nv0 = ex.violations.len();
                            let r = ex.run();
                            st.max_path_steps = st.max_path_steps.max(ex.steps);
                            match r {
                                Stop::End => {
                                    st.paths += 1;
                                    ex.end_path();
                                    if nsamples > 0 && ex.violations.len() == nv0 {
                                        // spread: power-of-two path counts plus a few
                                        if st.paths.is_power_of_two() || st.paths % 997 == 0 {
                                            if loc_samples.len() < nsamples {
                                                let vals = ex.values_of_model();
                                                let o = ex.out_concrete();
                                                let outcome = if ex.ended_by_panic { "panic" } else { "end" };
                                                loc_samples.push((job.spec, job.param, vals, o, outcome.to_string()));
                                            }
                                        }
                                    }
                                    if ex.ended_by_panic {
                                        st.allowed_panics += 1;
                                    }
                                }
                                Stop::Infeasible => st.infeasible += 1,
                                Stop::Panic(p) => {
                                    st.paths += 1;
                                    ex.report("panic", p);
                                }
                                Stop::Limit => {
                                    st.paths += 1;
                                    ex.report("limit", "step limit".into());
                                }
                                Stop::Abort(p) => {
                                    st.paths += 1;
                                    ex.report("abort", p);
                                }
                                Stop::Error(e) => {
                                    // this path is left out; the others go on
                                    let n = unsupported.fetch_add(1, Ordering::SeqCst);
                                    if n < 20 {
                                        let vals = ex.values_of_model();
                                        shared.lock().unwrap().errors.push(format!(
                                            "{}:{} {} model={:?}",
                                            specs[job.spec].0, job.param, e, vals
                                        ));
                                    }
                                }
                                Stop::Halt => {}
                            }
                            if !ex.violations.is_empty() {
                                let mut sh = shared.lock().unwrap();
                                for v in ex.violations.drain(..) {
                                    let k = (job.spec, v.kind.clone(), v.code.clone());
                                    let c = sh.viol_codes.entry(k).or_insert(0);
                                    *c += 1;
                                    if *c <= 3 {
                                        sh.viol.push((job.spec, job.param, v));
                                    }
                                }
                                let total: u32 = sh.viol_codes.iter().filter(|(k, _)| k.1 != "limit").map(|(_, n)| *n).sum();
                                if total as usize >= max_viol {
                                    halt.store(true, Ordering::SeqCst);
                                }
                            }
                            if t0.elapsed().as_secs_f64() > deadline {
                                timed_out.store(true, Ordering::SeqCst);
                                halt.store(true, Ordering::SeqCst);
                            }
                            if hungry.load(Ordering::SeqCst) > 0 {
                                let want = {
                                    let g = queue.lock().unwrap();
                                    g.q.len() < threads
                                };
                                if want {
                                    if let Some(p) = ex.donate() {
                                        let mut g = queue.lock().unwrap();
                                        g.q.push_back(Job { spec: job.spec, f: job.f, param: job.param, pre: Some(p) });
                                        cv.notify_one();
                                    }
                                }
                            }
                            if !ex.backtrack() {
                                ex.total_steps += ex.steps;
                                break;
                            }
                        }
                        st.steps = ex.total_steps;
                        st.asserts = ex.asserts;
                        if verbose && jt.elapsed().as_secs_f64() > 1.0 {
                            eprintln!(
                                "[{:.1}] {}:{} {} paths {} steps {:.1}s",
                                t0.elapsed().as_secs_f64(),
                                specs[job.spec].0,
                                job.param,
                                st.paths,
                                st.steps,
                                jt.elapsed().as_secs_f64()
                            );
                        }
                        {
                            let mut sh = shared.lock().unwrap();
                            let e = sh.stats.entry((job.spec, job.param)).or_default();
                            e.paths += st.paths;
                            e.infeasible += st.infeasible;
                            e.allowed_panics += st.allowed_panics;
                            e.steps += st.steps;
                            e.asserts += st.asserts;
                            e.incomplete += st.incomplete;
                            e.max_path_steps = e.max_path_steps.max(st.max_path_steps);
                            for (k, v) in &ex.covers {
                                *sh.covers.entry((job.spec, *k)).or_insert(0) += v;
                            }
                            sh.samples.extend(loc_samples);
                        }
                        let mut g = queue.lock().unwrap();
                        g.active -= 1;
                        if g.active == 0 && g.q.is_empty() {
                            cv.notify_all();
                        }
                    }
                    let mut sh = shared.lock().unwrap();
                    for (i, e) in ex.entered.iter().enumerate() {
                        if *e {
                            sh.funcs.insert(i as u32);
                        }
                    }
                    let s = &ex.sol.stats;
                    sh.solver.queries += s.queries;
                    sh.solver.z3_calls += s.z3_calls;
                    sh.solver.cache_hits += s.cache_hits;
                    sh.solver.sat += s.sat;
                    sh.solver.unsat += s.unsat;
                    sh.solver.z3_time += s.z3_time;
                    sh.exprs += ex.pool.nodes.len() as u64;
                    if let Some(d) = ex.sol.dump.take() {
                        sh.queries.extend(d);
                    }
                })
                .unwrap();
        }
    });

    let sh = shared.into_inner().unwrap();
    let left = queue.into_inner().unwrap().q.len();
    let mut o = String::from("{\n");
    let mut agg: BTreeMap<usize, JobStat> = BTreeMap::new();
    for ((si, _), s) in &sh.stats {
        let e = agg.entry(*si).or_default();
        e.paths += s.paths;
        e.infeasible += s.infeasible;
        e.allowed_panics += s.allowed_panics;
        e.steps += s.steps;
        e.asserts += s.asserts;
        e.incomplete += s.incomplete;
        e.max_path_steps = e.max_path_steps.max(s.max_path_steps);
    }
    o.push_str("\"jobs\": [\n");
    let mut first = true;
    for (si, (f, lo, hi)) in specs.iter().enumerate() {
        let s = agg.get(&si).cloned().unwrap_or_default();
        if !first {
            o.push_str(",\n");
        }
        first = false;
        let per: Vec<String> =
            sh.stats.iter().filter(|((x, _), _)| *x == si).map(|((_, p), s)| format!("\"{}\": {}", p, s.paths)).collect();
        o.push_str(&format!(
            "{{\"fn\": {}, \"lo\": {}, \"hi\": {}, \"paths\": {}, \"infeasible\": {}, \"allowed_panics\": {}, \"steps\": {}, \"max_path_steps\": {}, \"asserts\": {}, \"incomplete\": {}, \"per_param\": {{{}}}}}",
            js(f), lo, hi, s.paths, s.infeasible, s.allowed_panics, s.steps, s.max_path_steps, s.asserts, s.incomplete, per.join(", ")
        ));
    }
    o.push_str("\n],\n\"covers\": [");
    let cs: Vec<String> = sh.covers.iter().map(|((s, c), n)| format!("[{}, {}, {}]", js(&specs[*s].0), c, n)).collect();
    o.push_str(&cs.join(", "));
    o.push_str("],\n\"violations\": [");
    let vs: Vec<String> = sh
        .viol
        .iter()
        .map(|(s, p, v)| {
            let vals: Vec<String> = v.values.iter().map(|(a, b)| format!("[{}, {}]", a, b)).collect();
            format!(
                "{{\"fn\": {}, \"param\": {}, \"kind\": {}, \"code\": {}, \"values\": [{}]}}",
                js(&specs[*s].0),
                p,
                js(&v.kind),
                js(&v.code),
                vals.join(", ")
            )
        })
        .collect();
    o.push_str(&vs.join(",\n"));
    o.push_str("],\n\"violation_counts\": [");
    let vc: Vec<String> =
        sh.viol_codes.iter().map(|((s, k, c), n)| format!("[{}, {}, {}, {}]", js(&specs[*s].0), js(k), js(c), n)).collect();
    o.push_str(&vc.join(", "));
    o.push_str("],\n\"samples\": [");
    let ss: Vec<String> = sh
        .samples
        .iter()
        .map(|(s, p, v, out, oc)| {
            let vals: Vec<String> = v.iter().map(|(a, b)| format!("[{}, {}]", a, b)).collect();
            let os: Vec<String> = out.iter().map(|x| x.to_string()).collect();
            format!(
                "{{\"fn\": {}, \"param\": {}, \"values\": [{}], \"out\": [{}], \"outcome\": {}}}",
                js(&specs[*s].0),
                p,
                vals.join(", "),
                os.join(", "),
                js(oc)
            )
        })
        .collect();
    o.push_str(&ss.join(",\n"));
    o.push_str("],\n\"functions\": [");
    let mut names: Vec<String> = sh.funcs.iter().map(|f| js(&m.funcs[*f as usize].name)).collect();
    names.sort();
    o.push_str(&names.join(", "));
    o.push_str("],\n\"errors\": [");
    let es: Vec<String> = sh.errors.iter().take(10).map(|e| js(e)).collect();
    o.push_str(&es.join(", "));
    o.push_str("],\n");
    if ndump > 0 {
        let qs: Vec<String> = sh.queries.iter().map(|(q, r)| format!("[{}, {}]", js(q), r)).collect();
        o.push_str(&format!("\"queries\": [{}],\n", qs.join(",\n")));
    }
    let s = &sh.solver;
    o.push_str(&format!(
        "\"solver\": {{\"name\": \"z3 4.8.12 (libz3, QF_BV)\", \"queries\": {}, \"z3_calls\": {}, \"cache_hits\": {}, \"sat\": {}, \"unsat\": {}, \"time_s\": {:.3}}},\n",
        s.queries, s.z3_calls, s.cache_hits, s.sat, s.unsat, s.z3_time
    ));
    o.push_str(&format!(
        "\"unsupported\": {}, \"njobs\": {}, \"left\": {}, \"timed_out\": {}, \"halted\": {}, \"exprs\": {}, \"parse_s\": {:.2}, \"wall_s\": {:.2}\n}}\n",
        unsupported.load(Ordering::SeqCst),
        njobs,
        left,
        timed_out.load(Ordering::SeqCst),
        halt.load(Ordering::SeqCst),
        sh.exprs,
        t_parse,
        t0.elapsed().as_secs_f64()
    ));
    print!("{}", o);
}
