//! The grammar reader groups operators.
use h::*;
fn go(s: &str) { trace(reader::both(s).map_or(999, |f| f.rules.len() as u64)) }
fn one_of(set: &[u8]) -> char {
    let b = byte();
    let mut ok = false;
    for x in set { ok |= b == *x }
    assume(ok);
    b as char
}
// Every chain of operators.
entry!(h_chain, {
    let mut s = String::from("a=b");
    for i in 0..param(0) { s.push(one_of(b"-~^|")); s.push((b'c' + i as u8) as char) }
    go(&s)
});
// Signs before and after an operand, inside a chain.
entry!(h_signs, {
    let mut s = String::from("a=b-");
    for _ in 0..param(0) { s.push(one_of(b"!& ")) }
    s.push('c');
    for _ in 0..param(1) { s.push(one_of(b"?*+~^ ")) }
    s.push_str(if flip() { "-d|e" } else { "|d-e" });
    go(&s)
});
// Parentheses anywhere.
entry!(h_parens, {
    let mut s = String::from("a=");
    for _ in 0..param(0) { s.push(one_of(b"()b-|")) }
    go(&s)
});
entry!(h_parens_signs, {
    let mut s = String::from("a=");
    for _ in 0..param(0) { s.push(one_of(b"()b~!?")) }
    go(&s)
});
// All operator signs in any order.
entry!(h_mixed, {
    let mut s = String::from("a=b");
    for _ in 0..param(0) { s.push(one_of(b"-~^|?*!c")) }
    go(&s)
});
// Arguments of calls are expressions of their own.
entry!(h_calls, {
    let mut s = String::from("a=b(");
    for _ in 0..param(0) { s.push(one_of(b"(),c-|")) }
    s.push(')');
    go(&s)
});
// White space and comments between any two signs.
entry!(h_space, {
    let base = "a=_{!b-(c~d|e^+)~f{2}|&g~*^h(i,j)}";
    let at = choose(base.len() + 1);
    let mut s = String::from(&base[..at]);
    for _ in 0..param(0) { s.push(one_of(b" \n\t\r/*x")) }
    s.push_str(&base[at..]);
    go(&s)
});
// Anything at one place.
entry!(h_any, { go(window("a=b-(c|d~!e*)^f?|g{2}-&h+", param(0), param(1))) });
// Long chains and many levels, with any sign somewhere.
entry!(h_big, {
    let n = [15, 16, 33, 64, 130][choose(5)];
    let at = [0, 1, n / 2, n - 1][choose(4)];
    let mut s = String::from("a=b");
    let k = choose(4);
    for i in 0..n {
        s.push_str(if i == at { " " } else { ["-", "|", "~", "|"][if k == 3 { 2 + i % 2 } else { k }] });
        if i == at { s.push(one_of(b"-~^|?*")) }
        s.push('b');
    }
    go(&s)
});
entry!(h_levels, {
    let n = [9, 17, 33][choose(3)];
    let at = choose(3);
    let mut s = String::from("a=");
    let (open, close) = [("(", ")"), ("(b-", ")"), ("!(b|", ")*"), ("b(c,", ")")][choose(4)];
    for i in 0..n { s.push_str(open); if at == 0 && i == n / 2 { s.push(one_of(b"(b&!")) } }
    s.push('b');
    if at == 1 { s.push(one_of(b"-)*|")) }
    for i in 0..n { s.push_str(close); if at == 2 && i == n / 2 { s.push(one_of(b")*-?")) } }
    go(&s)
});
harnesses!(h_chain, h_signs, h_parens, h_parens_signs, h_mixed, h_calls, h_space, h_any, h_big, h_levels);
