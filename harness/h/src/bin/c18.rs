//! Snippets.
use h::*;
use pest3_core::formatter::FormatOption;
use std::fmt::Write;

/// A character of the alphabet: text, what is shown, columns.
static CHARS: &[(&str, &str, usize)] = &[
    ("\n", "\u{240a}", 1), ("a", "a", 1), ("\r", "\u{240d}", 1), ("\t", "\u{2409}", 1), ("\u{4e2d}", "\u{4e2d}", 2), ("\u{e9}", "\u{e9}", 1), ("\u{b1}", "\u{b1}", 2),
    ("\u{7f}", "\u{2421}", 1), (" ", " ", 1), ("\0", "\u{2400}", 1), ("\u{1f496}", "\u{1f496}", 2), ("\u{1b}", "\u{241b}", 1), ("\u{301}", "\u{301}", 0),
];
/// A text as numbers of characters, and its offsets.
struct Doc { s: &'static str, c: Vec<usize>, at: Vec<usize> }
fn doc(c: Vec<usize>) -> Doc {
    let (mut s, mut at) = (String::new(), vec![0]);
    for x in &c { s.push_str(CHARS[*x].0); at.push(s.len()) }
    Doc { s: s.leak(), c, at }
}
impl Doc {
    fn first(&self, mut i: usize) -> usize { while i > 0 && self.c[i - 1] != 0 { i -= 1 } i }
    fn end(&self, mut i: usize) -> usize { while i < self.c.len() { i += 1; if self.c[i - 1] == 0 { break } } i }
    fn line(&self, i: usize) -> usize { 1 + self.c[..i].iter().filter(|x| **x == 0).count() }
    fn show(&self, a: usize, z: usize) -> String { let mut o = String::new(); for x in &self.c[a..z] { o.push_str(CHARS[*x].1) } o }
    fn width(&self, a: usize, z: usize) -> usize { self.c[a..z].iter().map(|x| CHARS[*x].2).sum() }
}
fn dec(n: usize) -> String { let mut o = String::new(); if n >= 10 { o = dec(n / 10) } o.push((b'0' + (n % 10) as u8) as char); o }
/// The marks put around marked text, markers and numbers.
struct Marks { s: (&'static str, &'static str), m: (&'static str, &'static str), n: (&'static str, &'static str) }
const NONE: Marks = Marks { s: ("", ""), m: ("", ""), n: ("", "") };
const SOME: Marks = Marks { s: ("{", "}"), m: ("[", "]"), n: ("<", ">") };
fn cat(o: &mut String, k: (&str, &str), t: &str) { o.push_str(k.0); o.push_str(t); o.push_str(k.1) }
fn rep(o: &mut String, t: &str, n: usize) { for _ in 0..n { o.push_str(t) } }
fn bar(o: &mut String, k: &Marks, digits: usize) { rep(o, " ", digits + 1); cat(o, k.n, "|") }
fn num(o: &mut String, k: &Marks, digits: usize, n: usize) {
    let d = dec(n);
    let mut t = String::new();
    rep(&mut t, " ", digits - d.len());
    t.push_str(&d);
    cat(o, k.n, &t);
    o.push(' ');
    cat(o, k.n, "|");
    o.push(' ');
}
fn position(d: &Doc, i: usize, k: &Marks) -> String {
    let (l, n) = (d.first(i), d.line(i));
    let digits = dec(n).len();
    let mut o = String::new();
    bar(&mut o, k, digits);
    o.push('\n');
    num(&mut o, k, digits, n);
    o.push_str(&d.show(l, d.end(i)));
    o.push('\n');
    bar(&mut o, k, digits);
    rep(&mut o, " ", 1 + d.width(l, i));
    cat(&mut o, k.m, "^");
    o.push('\n');
    o
}
fn span(d: &Doc, a: usize, z: usize, k: &Marks) -> String {
    // The end lies after the last character of the span, so on that character's line.
    let last = if z > a { z - 1 } else { z };
    let (la, lz) = (d.first(a), d.first(last));
    let (na, nz) = (d.line(a), d.line(last));
    let digits = dec(nz).len();
    let mut o = String::new();
    bar(&mut o, k, digits);
    if na == nz {
        cover(0);
        o.push('\n');
        num(&mut o, k, digits, na);
        o.push_str(&d.show(la, a));
        cat(&mut o, k.s, &d.show(a, z));
        o.push_str(&d.show(z, if z > a { d.end(last) } else { d.end(a) }));
        o.push('\n');
        bar(&mut o, k, digits);
        rep(&mut o, " ", 1 + d.width(la, a));
        let mut m = String::new();
        rep(&mut m, "^", d.width(a, z));
        cat(&mut o, k.m, &m);
        o.push('\n');
        return o;
    }
    cover(1);
    rep(&mut o, " ", 1 + d.width(la, a));
    cat(&mut o, k.m, "v");
    o.push('\n');
    num(&mut o, k, digits, na);
    o.push_str(&d.show(la, a));
    cat(&mut o, k.s, &d.show(a, d.end(a)));
    o.push('\n');
    // Whole lines between: all if at most three, else the first and the last of them around dots.
    let mut i = d.end(a);
    let between = nz - na - 1;
    for j in 0..between {
        let e = d.end(i);
        if between <= 3 || j == 0 || j == between - 1 {
            num(&mut o, k, digits, na + 1 + j);
            cat(&mut o, k.s, &d.show(i, e));
            o.push('\n');
        } else if j == 1 {
            cover(2);
            bar(&mut o, k, digits);
            o.push_str(" ...\n");
        }
        i = e;
    }
    num(&mut o, k, digits, nz);
    cat(&mut o, k.s, &d.show(lz, z));
    o.push_str(&d.show(z, d.end(last)));
    o.push('\n');
    bar(&mut o, k, digits);
    let w = d.width(lz, z);
    rep(&mut o, " ", 1 + if w > 0 { w - 1 } else { 0 });
    cat(&mut o, k.m, "^");
    o.push('\n');
    o
}
fn check(d: &Doc) { check_from(d, 0) }
fn check_from(d: &Doc, from: usize) {
    let n = d.c.len();
    let a = from + choose(n + 1 - from);
    if flip() {
        let Some(p) = Position::new(d.s, d.at[a]) else { fail("position") };
        let t = p.to_string();
        ck(t == position(d, a, &NONE), "the snippet of a position");
        trace(t.len() as u64);
        let mut t = String::new();
        let r = p.display(&mut t, FormatOption::new::<String>(|s, f| write!(f, "{{{s}}}"), |s, f| write!(f, "[{s}]"), |s, f| write!(f, "<{s}>")));
        ck(r.is_ok() && t == position(d, a, &SOME), "the decorated snippet of a position");
    } else {
        let z = a + choose(n + 1 - a);
        let Some(p) = Span::new(d.s, d.at[a], d.at[z]) else { fail("span") };
        let t = p.to_string();
        ck(t == span(d, a, z, &NONE), "the snippet of a span");
        trace(t.len() as u64);
        let mut t = String::new();
        let r = p.display(&mut t, FormatOption::new::<String>(|s, f| write!(f, "{{{s}}}"), |s, f| write!(f, "[{s}]"), |s, f| write!(f, "<{s}>")));
        ck(r.is_ok() && t == span(d, a, z, &SOME), "the decorated snippet of a span");
    }
}
fn some(n: usize, alphabet: usize) -> Vec<usize> { let mut v = Vec::new(); for _ in 0..choose(n + 1) { v.push(choose(alphabet)) } v }
entry!(h_small, { check(&doc(some(param(0), 3))) });
entry!(h_wide, { check(&doc(some(param(0), CHARS.len()))) });
// Many lines, with something anywhere.
entry!(h_lines, {
    let before = choose(param(0) + 1);
    let mut v = Vec::new();
    for i in 0..before { if i % 3 == 1 { v.push(1) } v.push(0) }
    v.extend(some(param(1), 2));
    check(&doc(v))
});
/// Any text: every character that is a control character or plain ASCII, without a reference for the width.
entry!(h_ascii, {
    let s = ascii_upto(param(0));
    let a = choose(s.len() + 1);
    let z = a + choose(s.len() + 1 - a);
    let Some(p) = Span::new(s, a, z) else { fail("span") };
    let mut t = String::new();
    let r = p.display(&mut t, FormatOption::new::<String>(|s, f| { f.push('{'); f.push_str(s); f.push('}'); Ok(()) }, |_, f| { f.push('^'); Ok(()) }, |_, _| Ok(())));
    ck(r.is_ok(), "printing fails");
    // The marked pieces, put together, are the marked text made visible.
    let mut want = String::new();
    for b in s.as_bytes()[a..z].iter() {
        if *b < 0x20 { let x = *b; want.push('\u{2400}'); let k = want.len(); unsafe { want.as_bytes_mut()[k - 1] = 0x80 + x } }
        else if *b == 0x7f { want.push('\u{2421}') }
        else { unsafe { want.as_mut_vec().push(*b) } }
    }
    let (t, w) = (t.as_bytes(), want.as_bytes());
    let (mut i, mut k, mut inside) = (0, 0, false);
    let plain = s.as_bytes().iter().all(|b| *b != b'{' && *b != b'}');
    if !plain { return }
    while i < t.len() {
        if t[i] == b'{' { inside = true } else if t[i] == b'}' { inside = false }
        else if inside { ck(k < w.len() && w[k] == t[i], "the marked text is not the text of the span"); k += 1 }
        i += 1;
    }
    ck(k == w.len(), "marked text is missing");
    cover(0);
    cover(1);
});
// Line numbers of more digits, and long lines.
entry!(h_big, {
    let n = [8, 9, 97, 98, 99, 254, 255, 256, 998, 999][choose(10)];
    let mut v = vec![0; n];
    if flip() { let l = v.len(); if l > 300 { return } for x in v.iter_mut().skip(3) { *x = 1 } }
    v.extend(some(param(0), 3));
    check_from(&doc(v), n.saturating_sub(param(1)))
});
harnesses!(h_small, h_wide, h_lines, h_ascii, h_big);
