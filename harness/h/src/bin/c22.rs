//! Recursive rules.
#![allow(non_upper_case_globals, unused)]
use h::*;
use hrt::spec::{*, E::*};
include!("../rec.rs");
fn rule(name: &str) -> usize {
    let mut i = 0;
    while i < rec::NAMES.len() { if rec::NAMES[i] == name { return i } i += 1 }
    fail("no such rule")
}
// Every rule on every short text over its own characters.
entry!(h_lists, { let k = rule(["val", "arr", "obj"][choose(3)]); rec::run(k, among_upto(param(0), b"()<>v,")); });
entry!(h_sums, { let k = rule(["sum", "prod", "atom"][choose(3)]); rec::run(k, among_upto(param(0), b"()v+* ")); });
entry!(h_parens, { let k = rule(["direct", "reps", "reps1", "bound", "sil", "_loop", "half", "loud", "_quiet", "call"][choose(10)]); rec::run(k, among_upto(param(0), b"()xbq!.<>")); });
entry!(h_mutual, { let k = rule(["mida", "midb", "midc", "se", "selff"][choose(5)]); rec::run(k, among_upto(param(0), b"ab<>xst ")); });
entry!(h_letters, { let k = rule(["look", "pushed", "many", "right"][choose(4)]); rec::run(k, among_upto(param(0), b"ab.10")); });
entry!(h_trivia, { let k = rule(["arr", "sum", "note", "mida"][choose(4)]); rec::run(k, among_upto(param(0), b"/. (v)")); });
// Any rule, any characters.
entry!(h_any, { let k = rec::any_rule(); rec::run(k, text_upto(param(0), 2)); });
// Deep nesting with something arbitrary at each level's end.
entry!(h_deep, {
    let (k, open, mid, close) = [
        ("direct", "(", "", ")"), ("right", "1", "0", ""), ("mida", "a<", "", ">b"), ("loud", "(q", "!", ")"), ("reps", "(()", "", ")"), ("reps1", "(b", "b", ")"),
        ("look", "a", "b", ""), ("val", "(v,", "v", ")"), ("val", "<(", "v", ")>"), ("sum", "v+(", "v", ")"), ("sil", "(", "x", ")"), ("pushed", "a", "", "a"),
        ("half", "(", "x", "."), ("se", "s", "t", ""), ("many", "ab", "a", ""), ("call", "<", "x", ">"), ("note", "/", "", "."), ("arr", "(//..", "", ")"),
    ][choose(18)];
    let n = param(0);
    let at = choose(2 * n + 2);
    let mut s = String::new();
    for i in 0..2 * n + 1 {
        // One character of something else at one place.
        if i == at { s.push_str(ascii(1)) }
        s.push_str(if i < n { open } else if i == n { mid } else { close });
    }
    let s: &'static str = Box::leak(s.into_boxed_str());
    rec::run(rule(k), s);
});
// Hundreds of levels, with something arbitrary in the middle, or a level not closed.
entry!(h_deeper, {
    let (k, open, mid, close) = [("direct", "(", "", ")"), ("right", "1", "0", ""), ("mida", "a<", "", ">b"), ("val", "(v,", "v", ")"), ("sum", "v+(", "v", ")"), ("sil", "(", "x", ")"), ("pushed", "a", "", "a"), ("call", "<", "x", ">")][choose(8)];
    let n = param(0);
    let mut s = String::new();
    for _ in 0..n { s.push_str(open) }
    let at = choose(3);
    if at == 0 { s.push_str(ascii(1)) } else { s.push_str(mid) }
    for i in 0..n { if at == 1 && i + 1 == n { s.push_str(ascii(1)) } else { s.push_str(close) } }
    rec::run(rule(k), Box::leak(s.into_boxed_str()));
});
mod small {
    use pest3::Parser;
    #[derive(Parser)]
    #[grammar_inline = r##"
~ = " "
x = "x" ~ y? | "(" ~ x ~ ")" ~ z
y = "y" ~ x | z
z = _{ "z" }
"##]
    pub struct P;
}
static SMALL: Gram = Gram { rules: &[
    (small::Rule::x as u32, false, Alt(&[Seq(&[(T::N, S("x")), (T::O, Opt(&Rule(1)))]), Seq(&[(T::N, S("(")), (T::O, Rule(0)), (T::O, S(")")), (T::O, Rule(2))])])),
    (small::Rule::y as u32, false, Alt(&[Seq(&[(T::N, S("y")), (T::O, Rule(0))]), Rule(2)])),
    (small::Rule::z as u32, true, S("z")),
], opt: Some(S(" ")), man: None };
fn num(r: small::Rule) -> u32 { r as u32 }
// A grammar in which everything is recursive.
entry!(h_small, {
    let s = among_upto(param(0), b"xyz( )");
    match choose(3) {
        0 => { against_spec!(small::rules::x<'static>, small::Rule, &SMALL, &Rule(0), s, num); }
        1 => { against_spec!(small::rules::y<'static>, small::Rule, &SMALL, &Rule(1), s, num); }
        _ => { against_spec!(small::rules::z<'static>, small::Rule, &SMALL, &Rule(2), s, num); }
    }
});
// Grammars put together at random.
include!("../gen/rec.rs");
entry!(h_many, { let k = any_rec(); run_rec(k, among_upto(param(0), b"ab()._")); });
entry!(h_many_any, { let k = any_rec(); run_rec(k, text_upto(param(0), 3)); });
harnesses!(h_lists, h_sums, h_parens, h_mutual, h_letters, h_trivia, h_any, h_deep, h_deeper, h_small, h_many, h_many_any);
