//! Counts and slice indices.
use h::*;
use h::reader::both;
fn go(s: &str) { trace(both(s).map_or(999, |f| f.rules.len() as u64)) }
fn number(s: &mut String, n: usize) { for _ in 0..n { let b = byte(); assume(b >= b'0' && b <= b'9'); s.push(b as char) } }
// Every count of so many digits, in every form.
entry!(h_count, {
    let mut s = String::from("a=b{");
    let form = choose(4);
    if form == 3 { s.push_str("..") }
    number(&mut s, param(0));
    if form == 1 { s.push_str("..") }
    if form == 2 { s.push_str(".."); number(&mut s, param(1)) }
    s.push('}');
    go(&s)
});
// Up to the largest number and beyond.
entry!(h_count_big, {
    let mut s = String::from(if flip() { "a=b{184467440737095516" } else { "a=b{1.." });
    if s.ends_with('.') { s.push_str("1844674407370955") ; number(&mut s, 4) } else { number(&mut s, 2 + choose(2)) }
    s.push('}');
    go(&s)
});
// Every index of so many digits with every sign.
fn index(s: &mut String, n: usize) {
    match choose(3) { 0 => {} 1 => s.push('-'), _ => s.push('+') }
    number(s, n);
}
entry!(h_index, {
    let mut s = String::from("a=b[");
    let form = choose(4);
    if form & 1 != 0 { index(&mut s, param(0)) }
    s.push_str("..");
    if form & 2 != 0 { index(&mut s, param(1)) }
    s.push(']');
    go(&s)
});
entry!(h_index_big, {
    let mut s = String::from("a=b[1..");
    match choose(3) { 0 => {} 1 => s.push('-'), _ => s.push('+') }
    s.push_str("92233720368547758");
    number(&mut s, 2 + choose(2));
    s.push(']');
    go(&s)
});
// Any signs between the brackets.
entry!(h_braces, { let mut s = String::from("a=b{"); s.push_str(among(param(0), b"012. }")); s.push('}'); go(&s) });
entry!(h_bracks, { let mut s = String::from("a=b["); s.push_str(among(param(0), b"01.-+ ]")); s.push(']'); go(&s) });
entry!(h_any, { go(window("a=b{2}-c[1..-2]|d~{..3}*", param(0), param(1))) });
harnesses!(h_count, h_count_big, h_index, h_index_big, h_braces, h_bracks, h_any);
