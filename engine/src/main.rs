//! symx: decide assertions of a harness by symbolic execution of its LLVM IR.
//!
//! symx IR.ll --entry NAME --out DIR [--jobs N] [--timeout S] [--max-steps N] [--witnesses K]
//!      [--clock-fn SUFFIX]... [--hash N] [--rlimit N] [--max-violations N] [--trace]
//!
//! Paths are explored exhaustively. Work is spread by forking: a process that sees a free job
//! slot gives a child every other one of its pending states. Every process writes DIR/w<pid>.json.
mod dbg;
mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}
fn jm<'a, I: IntoIterator<Item = (&'a String, &'a u64)>>(i: I) -> String {
    format!("{{{}}}", i.into_iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","))
}

fn dump(r: &Results, incomplete: usize) -> String {
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"paths\":{},\"assumed_away\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"asserts_solver\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_time\":{},\"slowest\":{},\"max_draws\":{},\"incomplete\":{}",
        r.paths, r.assumed_away, r.forks, r.steps, r.asserts, r.asserts_solver, r.queries, r.sat, r.unsat,
        r.solver_time, r.slowest, r.max_draws, incomplete
    );
    let _ = write!(o, ",\"covers\":{}", jm(&r.covers));
    let _ = write!(o, ",\"fork_at\":{}", jm(&r.fork_at));
    let _ = write!(o, ",\"errors\":{}", jl(r.errors.iter().map(|e| js(e))));
    let _ = write!(o, ",\"lines\":{}", jl(r.lines.iter().map(|e| js(e))));
    let _ = write!(o, ",\"funcs\":{}", jl(r.funcs.iter().map(|e| js(e))));
    let _ = write!(
        o,
        ",\"witnesses\":{}",
        jl(r.witnesses.iter().map(|w| format!(
            "{{\"draws\":{},\"log\":{}}}",
            jl(w.draws.iter().map(|d| format!("{d}"))),
            jl(w.log.iter().map(|l| js(l)))
        )))
    );
    let _ = write!(
        o,
        ",\"violations\":{}",
        jl(r.violations.iter().map(|v| format!(
            "{{\"kind\":{},\"what\":{},\"draws\":{},\"stack\":{},\"log\":{}}}",
            js(&v.kind),
            js(&v.what),
            jl(v.draws.iter().map(|d| format!("{d}"))),
            jl(v.stack.iter().map(|l| js(l))),
            jl(v.log.iter().map(|l| js(l)))
        )))
    );
    o.push('}');
    o
}

struct Cfg {
    ir: String,
    entry: String,
    out: String,
    jobs: i64,
    timeout: f64,
    rlimit: u32,
    max_violations: usize,
    opts: Opts,
}

fn main() {
    let mut c = Cfg {
        ir: String::new(),
        entry: String::new(),
        out: ".".into(),
        jobs: 1,
        timeout: 600.0,
        rlimit: 40_000_000,
        max_violations: 4,
        opts: Opts {
            max_steps: 20_000_000,
            witnesses: 2,
            clock_fns: vec![],
            hash: 0,
            stop_on_violation: false,
            trace: false,
        },
    };
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("value");
        match x.as_str() {
            "--entry" => c.entry = v(),
            "--out" => c.out = v(),
            "--jobs" => c.jobs = v().parse().unwrap(),
            "--timeout" => c.timeout = v().parse().unwrap(),
            "--rlimit" => c.rlimit = v().parse().unwrap(),
            "--max-steps" => c.opts.max_steps = v().parse().unwrap(),
            "--max-violations" => c.max_violations = v().parse().unwrap(),
            "--witnesses" => c.opts.witnesses = v().parse().unwrap(),
            "--clock-fn" => c.opts.clock_fns.push(v()),
            "--hash" => c.opts.hash = v().parse().unwrap(),
            "--trace" => c.opts.trace = true,
            "--z3-version" => {
                println!("{}", z3::version());
                return;
            }
            _ => c.ir = x,
        }
    }
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(move || go(c)).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn go(c: Cfg) -> i32 {
    let t0 = Instant::now();
    let text: &'static str = Box::leak(std::fs::read_to_string(&c.ir).expect("read IR").into_boxed_str());
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(text)));
    let Some(&entry) = m.fidx.get(c.entry.as_str()) else {
        eprintln!("no function {}", c.entry);
        return 3;
    };
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const AtomicI64;
    // free slots, violations so far, processes started, processes that wrote their file
    let (free, viol, started, done) =
        unsafe { (&*shared, &*shared.add(1), &*shared.add(2), &*shared.add(3)) };
    free.store(c.jobs - 1, SeqCst);
    started.store(1, SeqCst);
    unsafe { prctl(36, 1, 0, 0, 0) }; // adopt orphaned workers, to wait for them
    let root = unsafe { fork() };
    if root == 0 {
        worker(m, entry, c, t0, free, viol, started, done);
        unsafe { _exit(0) }
    }
    loop {
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, 0) };
        if p < 0 {
            break;
        }
        if st != 0 {
            eprintln!("worker {p} ended with status {st:#x}");
        }
    }
    if started.load(SeqCst) != done.load(SeqCst) {
        eprintln!("a worker died");
        return 3;
    }
    0
}

fn worker(
    m: &'static ir::Module,
    entry: usize,
    c: Cfg,
    t0: Instant,
    free: &AtomicI64,
    viol: &AtomicI64,
    started: &AtomicI64,
    done: &AtomicI64,
) {
    let rlimit = c.rlimit;
    let mut e = Eng {
        m,
        cx: expr::Ctx::new(),
        z: z3::Solver::new(rlimit),
        pending: vec![],
        ginit: HashMap::new(),
        res: Results::default(),
        o: c.opts,
        sites: HashMap::new(),
        cur_site: (0, 0, 0),
    };
    let s0 = e.start(entry);
    let mut cur = Some(s0);
    let mut incomplete = 0;
    let mut seen_viol = 0;
    loop {
        let st = match cur.take() {
            Some(s) => s,
            None => match e.pending.pop() {
                Some(s) => s,
                None => break,
            },
        };
        if t0.elapsed().as_secs_f64() > c.timeout || viol.load(SeqCst) >= c.max_violations as i64 {
            incomplete += 1 + e.pending.len();
            break;
        }
        cur = e.run(st, 20_000);
        let nv = e.res.violations.len();
        if nv > seen_viol {
            viol.fetch_add((nv - seen_viol) as i64, SeqCst);
            seen_viol = nv;
        }
        while e.pending.len() + cur.is_some() as usize >= 2 {
            if free.fetch_sub(1, SeqCst) <= 0 {
                free.fetch_add(1, SeqCst);
                break;
            }
            started.fetch_add(1, SeqCst);
            let all = std::mem::take(&mut e.pending);
            let (mut keep, mut give) = (vec![], vec![]);
            let n = all.len();
            for (i, s) in all.into_iter().enumerate() {
                if (n - 1 - i + cur.is_some() as usize) % 2 == 0 { keep.push(s) } else { give.push(s) }
            }
            let pid = unsafe { fork() };
            if pid < 0 {
                panic!("fork");
            }
            if pid == 0 {
                e.pending = give;
                cur = None;
                std::mem::forget(keep);
                let old = std::mem::replace(&mut e.z, z3::Solver::new(rlimit));
                std::mem::forget(old);
                e.res = Results::default();
                e.sites.clear();
                incomplete = 0;
                seen_viol = 0;
            } else {
                e.pending = keep;
                std::mem::forget(give);
            }
        }
    }
    e.collect_cov();
    let f = format!("{}/w{}.json", c.out, unsafe { getpid() });
    std::fs::write(&f, dump(&e.res, incomplete)).expect("write result");
    done.fetch_add(1, SeqCst);
    free.fetch_add(1, SeqCst);
    std::mem::forget(e);
}
