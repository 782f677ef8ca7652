mod exec;
mod ext;
mod ir;
mod mem;
mod smt;
mod term;
use exec::*;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

struct Shared { p: *const AtomicU64 }
impl Shared {
    fn new() -> Self { unsafe { let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0); assert!(p as isize != -1); Shared { p: p as *const AtomicU64 } } }
    fn at(&self, i: usize) -> &AtomicU64 { unsafe { &*self.p.add(i) } }
}
// shared slots: 0 = stop flag, 1 = tokens in use, 2 = children count

fn main() {
    std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap().join().unwrap();
}

fn write_result(ex: &Ex, path: &str, viol: &Option<Violation>, status: &str) {
    let mut s = String::new();
    s += &format!("status {}\n", status);
    s += &format!("stat paths {} killed {} steps {} forks {} queries {} hits {} sat {} unsat {} solver_ns {} max_ns {} implied {} terms {}\n", ex.paths, ex.killed, ex.steps, ex.forks, ex.smt.queries, ex.smt.cache_hits, ex.smt.sat, ex.smt.unsat, ex.smt.solver_ns, ex.smt.max_ns, ex.implied, ex.ar.nodes.len());
    for (k, b) in &ex.covers { s += &format!("cover {} {}\n", k, hex(b)) }
    for (b, t) in &ex.witnesses { s += &format!("wit {} {}\n", if b.is_empty() { "-".into() } else { hex(b) }, t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
    for (i, u) in ex.fn_used.iter().enumerate() { if *u { s += &format!("fn {}\n", ex.fn_names[i]) } }
    if let Some(v) = viol {
        s += &format!("viol {} {} {}\n", v.kind, if v.bytes.is_empty() { "-".into() } else { hex(&v.bytes) }, v.msg.replace('\n', " "));
        for f in &v.stack { s += &format!("frame {}\n", f) }
    }
    std::fs::write(path, s).unwrap();
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::from("/dev/stdout");
    let mut jobs = 1u64;
    let mut params = vec![0u64; 8];
    let mut max_steps = 200_000_000;
    let mut dump: Option<String> = None;
    let mut verbose = false;
    let mut prof = false;
    let mut limit = 0u64;
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => { ll = v; i += 1 }
            "--entry" => { entry = v; i += 1 }
            "--out" => { out = v; i += 1 }
            "--jobs" => { jobs = v.parse().unwrap(); i += 1 }
            "--param" => { for (j, x) in v.split(',').enumerate() { params[j] = x.parse().unwrap() } i += 1 }
            "--max-steps" => { max_steps = v.parse().unwrap(); i += 1 }
            "--dump" => { dump = Some(v); i += 1 }
            "--timeout" => { limit = v.parse().unwrap(); i += 1 }
            "-v" => verbose = true,
            "--prof" => prof = true,
            x => panic!("arg {}", x),
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&ll).unwrap();
    let mut ex = Ex::new(m);
    ex.params = params;
    ex.max_steps = max_steps;
    ex.verbose = verbose;
    if prof { ex.prof = Some(Default::default()) }
    if let Some(d) = dump { ex.smt.dump = Some(std::fs::File::create(d).unwrap()); ex.smt.dump_left = 40 }
    let st = match ex.start(&entry) { Ok(s) => s, Err(e) => { eprintln!("symex: {}", e); std::process::exit(3) } };
    let sh = Shared::new();
    sh.at(1).store(1, Ordering::SeqCst);
    ex.pending.push(st);
    let mut kids: Vec<i32> = vec![];
    let mut root = true;
    let mut my_out = out.clone() + ".0";
    let mut viol: Option<Violation> = None;
    let mut status = "complete";
    let mut last = std::time::Instant::now();
    let mut born = std::time::Instant::now();
    loop {
        if sh.at(0).load(Ordering::Relaxed) != 0 { status = "stopped"; break }
        if limit > 0 && t0.elapsed().as_secs() > limit { status = "timeout"; sh.at(0).store(1, Ordering::SeqCst); break }
        let Some(st) = ex.pending.pop() else { break };
        if verbose && last.elapsed().as_secs() >= 5 {
            last = std::time::Instant::now();
            eprintln!("[{}] t={}s paths={} killed={} pending={} steps={} queries={} hits={} solver={}ms terms={}", std::process::id(), t0.elapsed().as_secs(), ex.paths, ex.killed, ex.pending.len(), ex.steps, ex.smt.queries, ex.smt.cache_hits, ex.smt.solver_ns / 1000000, ex.ar.nodes.len());
        }
        // split work with an idle slot
        if ex.pending.len() >= 2 && born.elapsed().as_millis() > 60 && sh.at(1).load(Ordering::Relaxed) < jobs {
            let cur = sh.at(1).fetch_add(1, Ordering::SeqCst);
            if cur >= jobs { sh.at(1).fetch_sub(1, Ordering::SeqCst); }
            else {
                let idx = sh.at(2).fetch_add(1, Ordering::SeqCst) + 1;
                let pid = unsafe { fork() };
                if pid == 0 {
                    root = false;
                    born = std::time::Instant::now();
                    kids.clear();
                    my_out = format!("{}.{}", out, idx);
                    let p = std::mem::take(&mut ex.pending);
                    ex.pending = p.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect();
                    ex.paths = 0; ex.killed = 0; ex.steps = 0; ex.forks = 0; ex.implied = 0;
                    ex.smt.queries = 0; ex.smt.cache_hits = 0; ex.smt.sat = 0; ex.smt.unsat = 0; ex.smt.solver_ns = 0; ex.smt.max_ns = 0;
                    ex.smt.dump = None;
                    ex.covers.clear();
                    ex.witnesses.clear();
                    drop(st);
                    continue;
                } else if pid > 0 {
                    kids.push(pid);
                    let p = std::mem::take(&mut ex.pending);
                    ex.pending = p.into_iter().enumerate().filter(|(i, _)| i % 2 == 1).map(|x| x.1).collect();
                } else { sh.at(1).fetch_sub(1, Ordering::SeqCst); }
            }
        }
        let r = ex.run(st, |_| sh.at(0).load(Ordering::Relaxed) != 0 || (limit > 0 && t0.elapsed().as_secs() > limit + 5));
        if let Err(v) = r {
            viol = Some(v);
            status = "violation";
            sh.at(0).store(1, Ordering::SeqCst);
            break;
        }
    }
    if let Some(p) = &ex.prof { let mut v: Vec<_> = p.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (n, c) in v.iter().take(40) { eprintln!("{:10} {}", c, n) } }
    write_result(&ex, &my_out, &viol, status);
    sh.at(1).fetch_sub(1, Ordering::SeqCst);
    let mut bad = false;
    for k in kids { let mut s = 0; unsafe { waitpid(k, &mut s, 0) }; if s != 0 { bad = true } }
    if !root { unsafe { _exit(if bad { 9 } else { 0 }) } }
    // merge
    let n = sh.at(2).load(Ordering::SeqCst);
    let mut f = std::fs::File::create(&out).unwrap();
    let _ = writeln!(f, "z3 {}", smt::z3_version());
    let _ = writeln!(f, "wall_ms {}", t0.elapsed().as_millis());
    let _ = writeln!(f, "procs {}", n + 1);
    if bad { let _ = writeln!(f, "status crashed"); }
    for i in 0..=n {
        let p = format!("{}.{}", out, i);
        match std::fs::read(&p) { Ok(b) => { let _ = f.write_all(&b); let _ = std::fs::remove_file(&p); } Err(_) => { let _ = writeln!(f, "status crashed"); } }
    }
}
