//! Where imports are looked for: every path of so many steps, from every directory, twice in a grammar and through other files.
use h::*;
use pest3_meta::parser::{parse, GrammarModule, Import, ParseExpr};
use std::path::PathBuf;
/// Directories: parent, and names of those inside.
static DIRS: &[(&str, usize, &[(&str, usize)])] = &[("", 9, &[("d", 1), ("g", 3)]), ("d/", 0, &[("e", 2), ("g", 4)]), ("d/e/", 1, &[]), ("g/", 0, &[]), ("d/g/", 1, &[])];
/// Files: directory, name. Each holds its own number.
static FILES: &[(usize, &str)] = &[(0, "a"), (0, "b"), (1, "a"), (1, "b"), (2, "a"), (2, "e"), (3, "a"), (4, "a"), (4, "d")];
fn text_of(i: usize, c: char) -> &'static str { let mut s = String::from("x=\"0"); s.push((b'0' + i as u8) as char); s.push(c); s.push_str("\""); s.leak() }
fn find(dir: usize, name: &str) -> Option<usize> { FILES.iter().position(|f| f.0 == dir && f.1 == name) }
/// A path and the file it names, seen from a directory.
fn path(mut dir: usize, steps: usize) -> (String, Option<usize>, &'static str) {
    let mut s = String::new();
    for _ in 0..choose(steps + 1) {
        if flip() { s.push_str("super::"); dir = DIRS[dir].1; assume(dir != 9); }
        else {
            let inside = DIRS[dir].2;
            assume(!inside.is_empty());
            let (n, d) = inside[choose(inside.len())];
            s.push_str(n);
            s.push_str("::");
            dir = d;
        }
    }
    let name = ["a", "b", "e", "d"][choose(4)];
    s.push_str(name);
    (s, find(dir, name), name)
}
fn is(m: &GrammarModule, i: usize, c: char) {
    ck(m.rules.len() == 1 && m.imports.is_empty() && m.rules[0].name == "x", "not the content of the file named");
    let ParseExpr::Str(t) = &m.rules[0].node.expr else { fail("not the content of the file") };
    let mut w = String::from("0");
    w.push((b'0' + i as u8) as char);
    w.push(c);
    ck(*t == w, "another file is read than the one named");
}
fn put() -> char {
    let b = byte();
    assume(b.is_ascii_alphanumeric());
    let c = b as char;
    for (i, (d, n)) in FILES.iter().enumerate() { let mut p = String::from(DIRS[*d].0); p.push_str(n); p.push_str(".pest"); file(&p, text_of(i, c)) }
    c
}
fn root(dir: usize) -> PathBuf { let mut p = String::from(DIRS[dir].0); p.push_str("root.pest"); PathBuf::from(p) }
entry!(h_two, {
    let dir = choose(3);
    let (p1, f1, n1) = path(dir, param(0));
    let (p2, f2, _) = path(dir, param(1));
    let c = put();
    let mut s = String::from("use ");
    s.push_str(&p1);
    s.push_str("\nuse ");
    s.push_str(&p2);
    s.push_str(" as other\nr = \"r\"");
    let m = parse(&s, &root(dir));
    let (Some(f1), Some(f2)) = (f1, f2) else { ck(m.is_err(), "a file that does not exist is imported"); cover(0); return };
    let Ok(m) = m else { fail("a grammar that imports two files is rejected") };
    cover(1);
    trace((f1 * 16 + f2) as u64);
    ck(m.imports.len() == 2 && m.rules.len() == 1, "the number of imports");
    match (&m.imports[0], &m.imports[1]) {
        (Import::File(x, a), Import::File(y, b)) => { ck(x == n1 && y == "other", "the names of the imported modules"); is(a, f1, c); is(b, f2, c) }
        _ => fail("a file is taken for a built-in module"),
    }
    if f1 != f2 { ck(m.dependencies.len() == 2, "the files the grammar depends on") } else { ck(!m.dependencies.is_empty(), "the file the grammar depends on") }
});
// Through a file in another directory: its imports are relative to it.
entry!(h_through, {
    let dir = choose(3);
    let at = choose(5);
    let (p, f, n) = path(at, param(0));
    let c = put();
    let mut mid = String::from("use ");
    mid.push_str(&p);
    mid.push_str("\nq=\"q\"");
    let mut place = String::from(DIRS[at].0);
    place.push_str("mid.pest");
    file(&place, mid.leak());
    // From the directory to the top, and down to the other one.
    let mut s = String::from("use ");
    let mut up = dir;
    while up != 0 { s.push_str("super::"); up = DIRS[up].1 }
    s.push_str(["", "d::", "d::e::", "g::", "d::g::"][at]);
    s.push_str("mid\n");
    // The same directory's file of that name, too.
    let (also, fa, _) = path(dir, 0);
    s.push_str("use ");
    s.push_str(&also);
    s.push_str(" as own\nr=\"r\"");
    let m = parse(&s, &root(dir));
    let (Some(f), Some(fa)) = (f, fa) else { ck(m.is_err(), "a file that does not exist is imported"); cover(0); return };
    let Ok(m) = m else { fail("a grammar that imports two files is rejected") };
    cover(1);
    trace((f * 16 + fa) as u64);
    ck(m.imports.len() == 2, "the number of imports");
    match (&m.imports[0], &m.imports[1]) {
        (Import::File(x, a), Import::File(y, b)) => {
            ck(x == "mid" && y == "own", "the names of the imported modules");
            is(b, fa, c);
            ck(a.rules.len() == 1 && a.rules[0].name == "q" && a.imports.len() == 1, "the file between");
            match &a.imports[0] { Import::File(z, k) => { ck(z == n, "the name of an import of an import"); is(k, f, c) } _ => fail("a file is taken for a built-in module") }
        }
        _ => fail("a file is taken for a built-in module"),
    }
    ck(m.dependencies.len() >= if f == fa { 2 } else { 3 }, "the files the grammar depends on");
});
harnesses!(h_two, h_through);
