//! Rules, their order, names, parameters and documentation; imports.
use h::*;
use h::reader::both;
fn go(s: &str) { trace(both(s).map_or(999, |f| f.rules.len() as u64 * 100 + f.uses.len() as u64 * 10 + f.doc.len() as u64)) }
const FILE: &str = "//! top\n//! more\nuse pest::stack as st\n/// one\n/// two\na(x,y)=x-y\n_b=_{c}//k\n~=\" \"";
entry!(h_any, { go(window(FILE, param(0), param(1))) });
// Names.
entry!(h_name, { let mut s = String::new(); s.push_str(among(param(0), b"_aZ9~^ ")); s.push_str("=b"); go(&s) });
entry!(h_name_any, { let mut s = String::from("x"); s.push_str(text(1, 3)); s.push_str("=b"); go(&s) });
// Parameters.
entry!(h_params, { let mut s = String::from("r("); s.push_str(among(param(0), b"a,_1 )")); s.push_str(")=b"); go(&s) });
// The silent mark.
entry!(h_silent, { let mut s = String::from("r="); s.push_str(among(param(0), b"_ {}b")); go(&s) });
// Documentation: any characters, at the start and before rules.
entry!(h_doc, {
    let mut s = String::from(if flip() { "//!" } else { "///" });
    s.push_str(text(param(0), 3));
    s.push_str("\na=b");
    go(&s)
});
entry!(h_docs, {
    let mut s = String::from("a=b\n");
    s.push_str(among(param(0), b"/!\nx "));
    s.push_str("\nc=d");
    go(&s)
});
// Comments.
entry!(h_comment, {
    let mut s = String::from("a=b/*");
    s.push_str(among(param(0), b"/* \nc"));
    s.push_str("*/\nc=d");
    go(&s)
});
// Two rules with anything between them.
entry!(h_between, { let mut s = String::from("a=b"); s.push_str(among(param(0), b" c={}~\n_")); s.push_str("d=e"); go(&s) });
// Imports of built-in modules.
entry!(h_import, {
    let mut s = String::from("use pest::any");
    s.push_str(among(param(0), b" \nas=:"));
    s.push_str("b=c");
    go(&s)
});
entry!(h_imports, { go(window("use pest::unicode as u\nuse pest::any\nas=b\nuse pest as p", param(0), param(1))) });
// Imports of files: where they are looked for, their content, their name.
entry!(h_files, {
    let (k, n) = (choose(8), choose(2));
    let mut b = String::from("b=\"");
    b.push_str(ascii(param(0)));
    b.push_str("\"");
    let b: &'static str = Box::leak(b.into_boxed_str());
    let (line, at, name) = [
        ("use b", "dir/b.pest", "b"),
        ("use b as q", "dir/b.pest", "q"),
        ("use sub::b", "dir/sub/b.pest", "b"),
        ("use super::b", "b.pest", "b"),
        ("use super::other::b as asc", "other/b.pest", "asc"),
        ("use b in \"dir/sub/x.pest\"", "dir/sub/x.pest", "b"),
        ("use k::b in \"dir/\\x78.pest\"\tas c", "dir/x.pest", "c"),
        ("use\tb", "dir/b.pest", "b"),
    ][k];
    file(at, b);
    let mut s = String::from(line);
    s.push_str(["\na=b", " /* as x */ as=b"][n]);
    let m = pest3_meta::parser::parse(&s, &std::path::PathBuf::from("dir/grammar.pest"));
    if k == 7 { ck(m.is_err(), "use without a space"); return }
    let want = reader::read(b);
    cover(want.is_ok() as u32);
    match (want, m) {
        (Err(_), Err(e)) => ck(!e.to_string().is_empty(), "an error without text"),
        (Ok(f), Ok(m)) => {
            ck(m.rules.len() == 1 && m.rules[0].name == ["a", "as"][n], "the importing rules");
            ck(m.imports.len() == 1, "the number of imports");
            match &m.imports[0] {
                pest3_meta::parser::Import::File(x, m) => { ck(x == name, "the name of an imported file"); reader::same(&f, m) }
                _ => fail("an imported file is taken for a built-in module"),
            }
        }
        (Ok(_), Err(_)) => fail("a grammar that imports a file is rejected"),
        (Err(_), Ok(_)) => fail("a broken imported file is accepted"),
    }
});
// Two imports of the same file, directly and through another one.
entry!(h_shared, {
    let mut c = String::from("c=\"");
    c.push_str(among(param(0), b"\\nx\""));
    c.push_str("\"");
    let c: &'static str = Box::leak(c.into_boxed_str());
    file("dir/c.pest", c);
    file("dir/b.pest", "use c as k\nb=k::c");
    let m = pest3_meta::parser::parse(["use b\nuse c\na=b", "use c\nuse b\na=b"][choose(2)], &std::path::PathBuf::from("dir/grammar.pest"));
    let want = reader::read(c);
    cover(want.is_ok() as u32);
    let (Ok(f), Ok(m)) = (&want, &m) else { ck(want.is_err() && m.is_err(), "whether the imports are read"); return };
    ck(m.imports.len() == 2, "the number of imports");
    for i in &m.imports {
        use pest3_meta::parser::Import::*;
        match i {
            File(n, m) if n == "c" => reader::same(f, m),
            File(n, m) if n == "b" => match &m.imports[..] { [File(n, m)] if n == "k" => reader::same(f, m), _ => fail("the import of an import") },
            _ => fail("another import"),
        }
    }
});
// Several grammars put together.
entry!(h_merge, {
    use pest3_meta::parser::{parse, GrammarModule};
    let n = param(0);
    let mut texts: [&'static str; 3] = [""; 3];
    for i in 0..3 {
        let mut s = String::new();
        match choose(4) {
            0 => {}
            1 => { s.push_str("//!"); s.push_str(among(n, b"x \n/")); s.push_str("\n/// d\na = _{b}\n^ = c") }
            2 => { s.push_str("//! g\nuse pest::"); s.push_str(among(n, b"x :_")); s.push_str("y as q\na(p) = p") }
            _ => { s.push_str("//! 1\n//! 2\nuse b\nuse pest::k\na = b\n//"); s.push_str(among(n, b"x \n")); s.push_str("\nc = a") }
        }
        texts[i] = s.leak();
    }
    file("dir/b.pest", "b=\"1\"");
    let root = std::path::PathBuf::from("dir/x.pest");
    let (Ok(a), Ok(b), Ok(c)) = (parse(texts[0], &root), parse(texts[1], &root), parse(texts[2], &root)) else { cover(0); return };
    let (Ok(mut f), Ok(g), Ok(k)) = (h::reader::read(texts[0]), h::reader::read(texts[1]), h::reader::read(texts[2])) else { return };
    let by_value = flip();
    let files = a.dependencies.len().max(b.dependencies.len()).max(c.dependencies.len());
    let m: GrammarModule = if by_value { [(*a).clone(), (*b).clone(), (*c).clone()].into_iter().collect() } else { [a, b, c].into_iter().collect() };
    for x in [g, k] { f.doc.extend(x.doc); f.uses.extend(x.uses); f.rules.extend(x.rules) }
    h::reader::same(&f, &m);
    ck(m.dependencies.len() == files, "the files that grammars together depend on");
    trace(m.rules.len() as u64);
    cover(1);
});
// Many rules, many parameters, long names and long comments.
entry!(h_big, {
    let n = [17, 65, 130][choose(3)];
    let mut s = String::new();
    let c = ascii(1);
    match choose(6) {
        0 => { for i in 0..n { s.push('a'); dec(&mut s, i); if i == n / 2 { s.push_str(c) } s.push_str("=\"x\"\n") } }
        1 => { s.push_str("a("); for i in 0..n { if i > 0 { s.push(',') } s.push('p'); dec(&mut s, i); if i == n - 2 { s.push_str(c) } } s.push_str(")=b") }
        2 => { for i in 0..n * 2 { s.push((b'a' + (i % 26) as u8) as char) } s.push_str(c); for i in 0..n { s.push((b'A' + (i % 26) as u8) as char) } s.push_str("=b") }
        3 => { s.push_str("///"); for i in 0..n * 2 { s.push((b'a' + (i % 26) as u8) as char) } s.push_str(c); s.push_str("z\na=b") }
        4 => { for i in 0..n { s.push_str("/// l"); dec(&mut s, i); if i == n / 2 { s.push_str(c) } s.push('\n') } s.push_str("a=b") }
        _ => { for i in 0..n { s.push_str("use pest::m"); dec(&mut s, i); if i == n - 1 { s.push_str(c) } s.push('\n') } s.push_str("a=b") }
    }
    go(&s)
});
fn dec(s: &mut String, n: usize) { if n >= 10 { dec(s, n / 10) } s.push((b'0' + (n % 10) as u8) as char) }
harnesses!(h_merge, h_files, h_shared, h_any, h_name, h_name_any, h_params, h_silent, h_doc, h_docs, h_comment, h_between, h_import, h_imports, h_big);
