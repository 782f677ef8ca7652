//! The places that the grammar reader reports: where rules and expressions were read from, where a text went wrong.
use h::*;
use h::reader::places;
fn go(s: &str) { trace(places(s)) }
fn one_of(set: &[u8]) -> char {
    let b = byte();
    let mut ok = false;
    for x in set { ok |= b == *x }
    assume(ok);
    b as char
}
// Every chain of operators.
entry!(h_chain, {
    let mut s = String::from("a=b");
    for i in 0..param(0) { s.push(one_of(b"-~^|")); if flip() { s.push(' ') } s.push((b'c' + i as u8) as char) }
    go(&s)
});
// Signs before and after an operand, inside a chain.
entry!(h_signs, {
    let mut s = String::from("a=b - ");
    for _ in 0..param(0) { s.push(one_of(b"!& ")) }
    s.push('c');
    for _ in 0..param(1) { s.push(one_of(b"?*+~^ ")) }
    s.push_str(if flip() { " -d|e" } else { " |d-e" });
    go(&s)
});
// Parentheses anywhere.
entry!(h_parens, {
    let mut s = String::from("a=");
    for _ in 0..param(0) { s.push(one_of(b"()b-|")) }
    go(&s)
});
entry!(h_parens_signs, {
    let mut s = String::from("a= ");
    for _ in 0..param(0) { s.push(one_of(b"()b !?")) }
    go(&s)
});
// Arguments and indices.
entry!(h_calls, {
    let mut s = String::from("a=b (");
    for _ in 0..param(0) { s.push(one_of(b"(),c |")) }
    s.push_str(if flip() { ")" } else { ") \nd=e" });
    go(&s)
});
// White space and comments between any two signs.
entry!(h_space, {
    let base = "a=_{!b-(c~d|e^+)~f{2}|&g~*^h(i,j)}";
    let at = choose(base.len() + 1);
    let mut s = String::from(&base[..at]);
    for _ in 0..param(0) { s.push(one_of(b" \n\t\r/*x")) }
    s.push_str(&base[at..]);
    go(&s)
});
// Several rules, with documentation, names in all alphabets around.
entry!(h_rules, { go(window("//! t\n/// d\na(x)= x-y \r\n_b=_{ \"\u{e9}\"}//k\n/// \u{4e2d}\n~ =\" \" ", param(0), param(1))) });
entry!(h_any, { go(window("a= b-(c|'d'..'e' ~!e*)^f?|g{2}-& h[1..]+", param(0), param(1))) });
// Characters of any length before what goes wrong.
entry!(h_chars, {
    let mut v = Vec::from(&b"a=\""[..]);
    for _ in 0..param(0) { let l = 1 + choose(4); push_char(&mut v, l) }
    v.extend_from_slice(b"\"\n-\"");
    let l = 1 + choose(4);
    push_char(&mut v, l);
    v.extend_from_slice([&b"\"|b"[..], b"\" b=", b"\"|\nc=\"\\xff\"", b"\"-'\\u{110000}'..'z'", b"\"{2..1}"][choose(5)]);
    go(unsafe { std::str::from_utf8_unchecked(&v) })
});
// What has no meaning: escapes, counts, indices, imports.
entry!(h_escape, {
    let mut s = String::from(["a=b-\"x\\", "a=i\"x\\", "a='\\", "a= 'a' .. '\\"][choose(4)]);
    let close = if s.contains('\'') { if s.contains("..") { "'" } else { "'..'z'" } } else { "\"-c" };
    s.push_str(["x", "u{", "u{11"][choose(3)]);
    for _ in 0..param(0) { s.push(one_of(b"0189adfDF")) }
    if s.contains('{') { s.push('}') }
    s.push_str(close);
    go(&s)
});
entry!(h_count, {
    let mut s = String::from(if flip() { "a=b-c {" } else { "a=b{2}~{ " });
    s.push_str(among(param(0), b"012. "));
    s.push_str("} -d");
    go(&s)
});
entry!(h_numbers, {
    let k = choose(6);
    let mut s = String::from(["a=b{ 184467440737095516", "a=b{1.. 184467440737095516", "a=b{184467440737095516", "a=b[ 92233720368547758", "a=b[1..+92233720368547758", "a=b[-92233720368547758"][k]);
    for _ in 0..2 { s.push(one_of(b"0123456789")) }
    s.push_str(["}", " }", "..}", "..]", "]", "..]|c"][k]);
    go(&s)
});
entry!(h_import, {
    let mut s = String::from("use  pest::any");
    s.push_str(among(param(0), b" ()b\n[."));
    s.push_str([" as q\na=b", "\na=b{0}", "::k\na=\"\\x80\""][choose(3)]);
    go(&s)
});
entry!(h_files, {
    let mut s = String::from("use pest::any\nuse ");
    s.push_str(among(param(0), b"qs: "));
    s.push_str("\na=b");
    go(&s)
});
// What a message offers instead.
entry!(h_offers, { let mut s = String::new(); s.push_str(among(param(0), b"a=_{(&")); trace(reader::offers(&s)) });
entry!(h_offers_after, { let mut s = String::from(["a=b", "a(b", "a={b-c", "a='b'", "a=b[1", "a=b(c", "a=b{2", "a=b[1..2", "a=b[..-1", "a=b{1..3", "a=_{b", "a=\x27b\x27..", "a=b~(c", "a=i", "use b", "a=b(c-d"][choose(16)]); s.push_str(among(param(0), b" ,={1|")); trace(reader::offers(&s)) });
entry!(h_offers_any, { trace(reader::offers(window("a={b-(c|'d'..'e' ~!e*)^f?}\nb(x)=_{y[..1]}", param(0), param(1)))) });
harnesses!(h_offers, h_offers_after, h_offers_any, h_chain, h_signs, h_parens, h_parens_signs, h_calls, h_space, h_rules, h_any, h_chars, h_escape, h_count, h_numbers, h_import, h_files);
