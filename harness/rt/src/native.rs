//! Native stand-ins of the symbolic primitives: one request per line of standard input,
//! `entry params hexbytes`, one answer per line.
use std::cell::RefCell;
use std::io::{BufRead, Write};

#[derive(Default)]
struct S { bytes: Vec<u8>, at: usize, params: Vec<u64>, trace: Vec<u64>, covers: Vec<u32>, refuse: bool }
thread_local!(static ST: RefCell<S> = RefCell::new(S::default()));

pub enum Stop { Assume, Exhausted, Fail(String) }
pub unsafe fn sym_byte() -> u8 {
    let r = ST.with(|s| { let mut s = s.borrow_mut(); let i = s.at; s.at += 1; s.bytes.get(i).copied() });
    match r { Some(b) => b, None => std::panic::resume_unwind(Box::new(Stop::Exhausted)) }
}
pub unsafe fn sym_assume(b: bool) { if !b { std::panic::resume_unwind(Box::new(Stop::Assume)) } }
pub unsafe fn sym_cover(id: u32) { ST.with(|s| s.borrow_mut().covers.push(id)) }
pub unsafe fn sym_trace(x: u64) { ST.with(|s| s.borrow_mut().trace.push(x)) }
pub unsafe fn sym_conc(x: u64) -> u64 { x }
pub unsafe fn sym_param(k: u32) -> u64 { ST.with(|s| s.borrow().params.get(k as usize).copied().unwrap_or(0)) }
pub unsafe fn sym_refuse(on: bool) { ST.with(|s| s.borrow_mut().refuse = on) }
pub unsafe fn sym_fail(p: *const u8, n: usize) -> ! { std::panic::resume_unwind(Box::new(Stop::Fail(String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()))) }

/// A scratch directory of this process, which is also its working directory.
fn scratch() -> std::path::PathBuf { std::env::temp_dir().join(format!("hrt-{}", std::process::id())) }
pub unsafe fn sym_file(p: *const u8, n: usize, d: *const u8, l: usize) {
    let (p, d) = (std::slice::from_raw_parts(p, n), std::slice::from_raw_parts(d, l));
    let p = std::path::Path::new(std::str::from_utf8(p).unwrap());
    assert!(p.components().all(|c| matches!(c, std::path::Component::Normal(_))));
    let dir = scratch();
    let at = dir.join(p);
    std::fs::create_dir_all(at.parent().unwrap()).unwrap();
    std::fs::create_dir_all(dir.join("dir")).unwrap(); // where the importing grammar lies
    std::env::set_current_dir(&dir).unwrap();
    std::fs::write(at, d).unwrap();
}
fn tidy() {
    let d = scratch();
    if d.is_dir() { let _ = std::env::set_current_dir("/"); let _ = std::fs::remove_dir_all(&d); }
}

pub fn run(t: &[(&'static str, extern "C" fn())]) {
    let t: Vec<(&'static str, extern "C" fn())> = t.to_vec();
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || work(&t)).unwrap().join().unwrap();
}
fn work(t: &[(&'static str, extern "C" fn())]) {
    let inp = std::io::stdin();
    let mut out = std::io::stdout();
    for l in inp.lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() < 3 { continue }
        let f = match t.iter().find(|x| x.0 == w[0]) { Some(f) => f.1, None => { println!("unknown {}", w[0]); continue } };
        let params = w[1].split(',').map(|x| x.parse().unwrap()).collect();
        let bytes = if w[2] == "-" { vec![] } else { (0..w[2].len() / 2).map(|i| u8::from_str_radix(&w[2][2 * i..2 * i + 2], 16).unwrap()).collect() };
        ST.with(|s| *s.borrow_mut() = S { bytes, params, ..Default::default() });
        // `extern "C"` functions may not unwind in general; the harness entries are declared through `entry!`, which catches inside.
        f();
        tidy();
        let r = RES.with(|r| r.borrow_mut().take()).unwrap_or_else(|| "ok".into());
        let (tr, cv) = ST.with(|s| { let s = s.borrow(); (s.trace.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), s.covers.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) });
        let _ = writeln!(out, "{} trace={} covers={}", r, tr, cv);
        let _ = out.flush();
    }
}
thread_local!(static RES: RefCell<Option<String>> = const { RefCell::new(None) });
pub fn guarded(f: fn()) {
    let r = std::panic::catch_unwind(f);
    let s = match r {
        Ok(()) => "ok".to_string(),
        Err(e) => match e.downcast_ref::<Stop>() {
            Some(Stop::Assume) => "assume".into(),
            Some(Stop::Exhausted) => "exhausted".into(),
            Some(Stop::Fail(c)) => format!("fail:{}", c.replace(|c: char| c.is_whitespace(), "_")),
            None if ST.with(|s| s.borrow().refuse) => "ok".into(),
            None => {
                let m = e.downcast_ref::<&str>().map(|x| x.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
                format!("panic:{}", m.replace(|c: char| c.is_whitespace() || c.is_control(), "_"))
            }
        },
    };
    RES.with(|r| *r.borrow_mut() = Some(s));
}
