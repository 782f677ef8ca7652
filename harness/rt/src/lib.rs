//! Run-time of the harnesses.
//!
//! Without the `native` feature the `sym_*` functions stay undefined: the symbolic executor supplies them.
//! With it, they read recorded bytes, so that a witness or a counterexample is replayed on the compiled code.
#![allow(clippy::missing_safety_doc)]
pub mod spec;

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sym_byte() -> u8;
        pub fn sym_assume(b: bool);
        pub fn sym_cover(id: u32);
        pub fn sym_trace(x: u64);
        pub fn sym_conc(x: u64) -> u64;
        pub fn sym_param(k: u32) -> u64;
        pub fn sym_fail(p: *const u8, n: usize) -> !;
        pub fn sym_file(p: *const u8, n: usize, d: *const u8, l: usize);
        pub fn sym_refuse(on: bool);
    }
}
#[cfg(feature = "native")]
pub mod native;
#[cfg(feature = "native")]
use native as imp;

/// A symbolic byte.
pub fn byte() -> u8 { unsafe { imp::sym_byte() } }
/// Only continue where `b` holds.
pub fn assume(b: bool) { unsafe { imp::sym_assume(b) } }
/// Reachability witness: the run must reach every declared cover.
pub fn cover(id: u32) { unsafe { imp::sym_cover(id) } }
/// Record an observable value: the native replay of a path must record the same ones.
pub fn trace(x: u64) { unsafe { imp::sym_trace(x) } }
/// Fork over every feasible value of `x`; `x` is a number afterwards.
pub fn conc(x: u64) -> u64 { unsafe { imp::sym_conc(x) } }
/// Bound given on the command line.
pub fn param(k: u32) -> usize { unsafe { imp::sym_param(k) as usize } }
/// Report a violation.
#[cold]
#[inline(never)]
pub fn fail(msg: &'static str) -> ! { unsafe { imp::sym_fail(msg.as_ptr(), msg.len()) } }

/// Put a file in place. The path is relative; nothing else exists in the file system.
pub fn file(path: &str, content: &'static str) { unsafe { imp::sym_file(path.as_ptr(), path.len(), content.as_ptr(), content.len()) } }

/// From here on a panic is what is expected: the run ends there, in order.
pub fn refuse(on: bool) { unsafe { imp::sym_refuse(on) } }

/// Assertion. The message identifies it in reports.
#[inline(always)]
pub fn ck(b: bool, msg: &'static str) { if !b { fail(msg) } }

/// A number below `n`, one path each.
pub fn choose(n: usize) -> usize {
    if n <= 1 { return 0 }
    let b = byte();
    assume((b as usize) < n);
    conc(b as u64) as usize
}
pub fn flip() -> bool { choose(2) == 1 }

/// `n` symbolic ASCII bytes.
pub fn ascii(n: usize) -> &'static str {
    let mut v = Vec::with_capacity(n.max(1));
    for _ in 0..n { let b = byte(); assume(b < 0x80); v.push(b) }
    leak(v)
}
/// `n` symbolic bytes of the set.
pub fn among(n: usize, set: &[u8]) -> &'static str {
    let mut v = Vec::with_capacity(n.max(1));
    for _ in 0..n {
        let b = byte();
        let mut ok = false;
        for x in set { ok |= b == *x }
        assume(ok);
        v.push(b)
    }
    leak(v)
}
fn leak(v: Vec<u8>) -> &'static str { unsafe { std::str::from_utf8_unchecked(Vec::leak(v)) } }

/// One symbolic character whose UTF-8 form has `len` bytes.
pub fn push_char(v: &mut Vec<u8>, len: usize) {
    let a = byte();
    match len {
        1 => { assume(a < 0x80); v.push(a) }
        2 => { let b = byte(); assume((a >= 0xc2) & (a <= 0xdf) & (b & 0xc0 == 0x80)); v.push(a); v.push(b) }
        3 => {
            let (b, c) = (byte(), byte());
            assume((a & 0xf0 == 0xe0) & (b & 0xc0 == 0x80) & (c & 0xc0 == 0x80));
            assume((a != 0xe0) | (b >= 0xa0));
            assume((a != 0xed) | (b < 0xa0));
            v.push(a); v.push(b); v.push(c)
        }
        _ => {
            let (b, c, d) = (byte(), byte(), byte());
            assume((a >= 0xf0) & (a <= 0xf4) & (b & 0xc0 == 0x80) & (c & 0xc0 == 0x80) & (d & 0xc0 == 0x80));
            assume((a != 0xf0) | (b >= 0x90));
            assume((a != 0xf4) | (b < 0x90));
            v.push(a); v.push(b); v.push(c); v.push(d)
        }
    }
}
/// Every UTF-8 text of exactly `n` characters, each of up to `maxlen` bytes.
pub fn text(n: usize, maxlen: usize) -> &'static str {
    let mut v = Vec::with_capacity(4 * n.max(1));
    for _ in 0..n { let l = 1 + choose(maxlen); push_char(&mut v, l) }
    leak(v)
}
/// Every text of at most `n` characters.
pub fn text_upto(n: usize, maxlen: usize) -> &'static str { text(choose(n + 1), maxlen) }
pub fn ascii_upto(n: usize) -> &'static str { ascii(choose(n + 1)) }
pub fn among_upto(n: usize, set: &[u8]) -> &'static str { among(choose(n + 1), set) }

/// Is `i` a character boundary (written out, not the library's function).
pub fn boundary(s: &str, i: usize) -> bool {
    let b = s.as_bytes();
    i == b.len() || (i < b.len() && (b[i] < 0x80 || b[i] >= 0xc0))
}
/// The character that starts at `i`, and its length.
pub fn char_at(b: &[u8], i: usize) -> Option<(u32, usize)> {
    if i >= b.len() { return None }
    let a = b[i] as u32;
    if a < 0x80 { return Some((a, 1)) }
    let c = |k: usize| (b[i + k] & 0x3f) as u32;
    if a < 0xe0 { return Some(((a & 0x1f) << 6 | c(1), 2)) }
    if a < 0xf0 { return Some(((a & 0xf) << 12 | c(1) << 6 | c(2), 3)) }
    Some(((a & 7) << 18 | c(1) << 12 | c(2) << 6 | c(3), 4))
}

/// Table of harness entries; also the native program.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident),* $(,)?) => {
        fn main() {
            let t: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
            #[cfg(feature = "native")]
            $crate::native::run(t);
            #[cfg(not(feature = "native"))]
            for (_, f) in t { std::hint::black_box(f)(); }
        }
    };
}

/// A harness entry point.
#[macro_export]
macro_rules! entry {
    ($name:ident, $body:block) => {
        #[no_mangle]
        #[inline(never)]
        pub extern "C" fn $name() {
            fn inner() $body
            #[cfg(feature = "native")]
            $crate::native::guarded(inner);
            #[cfg(not(feature = "native"))]
            inner();
        }
    };
}

/// `base` with up to `del` bytes somewhere replaced by up to `ins` symbolic ASCII bytes.
pub fn window(base: &str, del: usize, ins: usize) -> &'static str {
    let b = base.as_bytes();
    let at = choose(b.len() + 1);
    let room = if b.len() - at < del { b.len() - at } else { del };
    let d = choose(room + 1);
    assume(boundary(base, at) && boundary(base, at + d));
    let n = choose(ins + 1);
    let mut v = Vec::with_capacity(b.len() + ins);
    v.extend_from_slice(&b[..at]);
    for _ in 0..n { let x = byte(); assume(x < 0x80); v.push(x) }
    v.extend_from_slice(&b[at + d..]);
    leak(v)
}
