//! Literals in a grammar.
use h::*;
use h::reader::{both, X};
fn go(s: &str) -> Option<X> { both(s).map(|f| { let r = f.rules.into_iter().next().unwrap(); trace(1); r.node.x }) }
fn put(v: &mut Vec<u8>, n: usize, maxlen: usize) { for _ in 0..n { let l = 1 + choose(maxlen); push_char(v, l) } }
fn str_of(v: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(v) } }
fn quoted(open: &str, n: usize, maxlen: usize, close: &str) {
    let mut v = Vec::from(open.as_bytes());
    put(&mut v, n, maxlen);
    v.extend_from_slice(close.as_bytes());
    go(str_of(&v));
}
// Any characters between the quotes.
entry!(h_string, { quoted("a=\"", choose(param(0) + 1), 4, "\"") });
entry!(h_insens, { quoted("a=i\"", choose(param(0) + 1), 2, "\"|b") });
// Escapes: any bytes after a backslash.
entry!(h_escape, { quoted("a=\"x\\", param(0), 1, "y\"") });
entry!(h_hex, { quoted("a=\"\\x", param(0), 1, "\"") });
fn digits(open: &str, n: usize, close: &str) {
    let mut v = Vec::from(open.as_bytes());
    for _ in 0..n { let b = byte(); assume((b as char).is_ascii_hexdigit()); v.push(b) }
    v.extend_from_slice(close.as_bytes());
    go(str_of(&v));
}
entry!(h_code, { digits("a=\"-\\x", 2, "-\"") });
entry!(h_unicode, { digits("a=\"\\u{", param(0), "}\"") });
entry!(h_unicode_any, { quoted("a=\"\\u{", choose(param(0) + 1), 1, "}\"") });
entry!(h_brace, { quoted("a=\"\\u", param(0), 1, "1}\"") });
// Characters of a range.
entry!(h_char, {
    let mut v = Vec::from(&b"a='"[..]);
    if flip() { v.push(b'\\') }
    put(&mut v, param(0), 4);
    v.extend_from_slice(b"'..'z'");
    go(str_of(&v));
});
entry!(h_char_end, {
    let mut v = Vec::from(&b"a='a' .. '"[..]);
    put(&mut v, param(0), 3);
    v.extend_from_slice(b"'|b");
    go(str_of(&v));
});
entry!(h_char_code, { if flip() { digits("a='\\u{", param(0), "}'..'\\u{10ffff}'") } else { digits("a='\\x", 2, "'..'z'") } });
// Raw strings.
entry!(h_raw, { quoted("a=r\"", choose(param(0) + 1), 3, "\"") });
entry!(h_raw_marks, {
    let mut s = String::from("a=r");
    let n = choose(3);
    for _ in 0..n { s.push('#') }
    s.push('"');
    s.push_str(among(param(0), b"\"#\\x\n"));
    s.push('"');
    for _ in 0..n { s.push('#') }
    go(&s);
});
entry!(h_raw_open, { let mut s = String::from("a=r"); s.push_str(among(param(0), b"\"#x ")); go(&s); });
// Several literals in a rule; nothing of one leaks into another.
entry!(h_several, { go(window("a=\"b\\n\"-r#\"c\"\\\"#|i\"d\\\"\"-'\\''..'e'", param(0), param(1))); });
// File names of imports are strings too (no such file, or a built-in collection).
entry!(h_spelled, {
    // Two spellings of the same text are the same text.
    let c = byte();
    assume(c < 0x80);
    let mut v = Vec::from(&b"a=\"\\x"[..]);
    let h = |d: u8| if d < 10 { b'0' + d } else if flip() { b'a' + d - 10 } else { b'A' + d - 10 };
    v.push(h(c >> 4));
    v.push(h(c & 15));
    v.push(b'"');
    let Some(X::Str(a)) = go(str_of(&v)) else { fail("an escape is not read") };
    ck(a.as_bytes() == [c], "a coded character");
});
// Long literals, with anything in them.
entry!(h_big, {
    let mut s = String::from(["a=\"", "a=i\"", "a=r\"", "a=r##\""][choose(4)]);
    let hashes = s.matches('#').count();
    let n = [62, 130, 257][choose(3)];
    for i in 0..n { s.push((b'b' + (i % 20) as u8) as char); }
    s.push_str(ascii(param(0)));
    for i in 0..3 { s.push((b'b' + (i % 20) as u8) as char); }
    s.push('"');
    for _ in 0..hashes { s.push('#') }
    go(&s);
});
harnesses!(h_string, h_insens, h_escape, h_hex, h_code, h_unicode, h_unicode_any, h_brace, h_char, h_char_end, h_char_code, h_raw, h_raw_marks, h_raw_open, h_several, h_spelled, h_big);
