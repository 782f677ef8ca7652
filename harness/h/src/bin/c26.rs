//! Reading any text as a grammar gives rules or an error that can be printed.
use h::*;
use std::path::PathBuf;
fn go(s: &str) {
    let r = match pest3_meta::parser::parse(s, &PathBuf::from("dir/x.pest")) {
        Ok(m) => Some(m.rules.len()),
        Err(e) => { ck(!e.to_string().is_empty(), "an error without text"); None }
    };
    cover(r.is_some() as u32);
    trace(r.map_or(999, |x| x as u64));
}
// Any text, alone and in the place of each part of a grammar.
entry!(h_text, { go(text_upto(param(0), 4)) });
entry!(h_ascii, { go(ascii_upto(param(0))) });
fn within(a: &str, n: usize, maxlen: usize, z: &str) {
    let mut s = String::from(a);
    s.push_str(text(n, maxlen));
    s.push_str(z);
    go(&s)
}
entry!(h_body, { within("a=", param(0), 1, "") });
entry!(h_wide, { within("a=", param(0), 4, "b") });
entry!(h_rule, { within("a=b\n", param(0), 1, "c=d") });
entry!(h_literal, { match choose(4) { 0 => within("a=\"", param(0), 2, "\""), 1 => within("a='", param(0), 4, "'..'b'"), 2 => within("a=r#\"", param(0), 2, "\"#"), _ => within("a=i\"\\", param(0), 2, "\"") } });
// One character of any length in each kind of quotes, escaped or not.
entry!(h_quoted, {
    let (a, z) = [("a='", "'..'b'"), ("a='b'..'", "'"), ("a='\\", "'..'b'"), ("a=\"", "\""), ("a=i\"", "\""), ("a=r\"", "\""), ("a=r#\"", "\"#"), ("use b in \"b", "\na=b"), ("a=\"\\u{", "}\""), ("//!", "\na=b"), ("///", "\na=b"), ("a=b//", ""), ("a=b/*", "*/"), ("a='", "'-b"), ("a=b..'", "'"), ("a='\\u{", "}'..'b'")][choose(16)];
    within(a, param(0), 4, z)
});
entry!(h_bounds, { if flip() { within("a=b{", param(0), 1, "}") } else { within("a=b[", param(0), 1, "]") } });
entry!(h_head, { within("a", param(0), 1, "=b") });
entry!(h_import, { within("use pest::b", param(0), 1, "\na=b") });
entry!(h_use, { let mut s = String::from("use b"); s.push_str(among(param(0), b"(-),[.1] ")); s.push_str("\na=b"); go(&s) });
entry!(h_comment, { within("a=b/", param(0), 1, "*/c=d") });
// A whole grammar with anything at one place.
entry!(h_whole, { go(window("//!m\nuse pest::stack as s\n///d\na(x,y)=_{&x-y~{2..}}\n/*c*/b=a(\"\\n\",r#\"\"\"#)^|'a'..'\\x7f'|s::peek[-1..]", param(0), param(1))) });
// Deep nesting: the executor limits the number of steps, so that reading takes no more than so many per character.
fn deep(n: usize) {
    let mut s = String::from("a=");
    let k = choose(6);
    let (open, close) = [("(", ")"), ("b(", ")"), ("(b|", ")"), ("!(b-", ")*"), ("/* ", "*/"), ("(b~", "c)")][k];
    for _ in 0..n { s.push_str(open) }
    s.push(byte_of(b"b*/( "));
    for _ in 0..n { s.push_str(close) }
    if k == 4 { s.push('b') }
    // Perhaps one is missing.
    if flip() { s.pop(); }
    go(&s)
}
fn byte_of(set: &[u8]) -> char {
    let b = byte();
    let mut ok = false;
    for x in set { ok |= b == *x }
    assume(ok);
    b as char
}
entry!(h_deep, { deep(param(0)) });
entry!(h_open, {
    let mut s = String::from("a=b");
    let open = ["/* ", "(", "-(", "{", "\"", "'", "r#\"", "x("][choose(8)];
    for _ in 0..param(0) { s.push_str(open); }
    s.push(byte_of(b"b*/( "));
    go(&s)
});
// Imported files: missing, broken, well-formed, importing each other.
entry!(h_files, {
    let mut b = String::from("use c\nb=");
    b.push_str(ascii(param(0)));
    file("dir/b.pest", Box::leak(b.into_boxed_str()));
    if flip() { file("dir/c.pest", ["c=\"c\"", "use b\nc=\"c\"", "c={", "use super::dir::b as d\nc=d::b"][choose(4)]) }
    go("use b\na=b")
});
harnesses!(h_text, h_ascii, h_body, h_wide, h_rule, h_literal, h_quoted, h_bounds, h_head, h_import, h_use, h_comment, h_whole, h_deep, h_open, h_files);
