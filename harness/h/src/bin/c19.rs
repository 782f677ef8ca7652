//! Rules with parameters.
#![allow(non_upper_case_globals)]
use h::*;
use hrt::spec::{*, E::*};
include!("../args.rs");
fn rule(names: &[&str]) -> usize {
    let name = names[choose(names.len())];
    let mut i = 0;
    while i < args::NAMES.len() { if args::NAMES[i] == name { return i } i += 1 }
    fail("no such rule")
}
// Plain calls.
entry!(h_plain, { let k = rule(&["n1", "n2", "n3", "n4", "n13", "n16", "n17", "n18"]); args::run(k, among_upto(param(0), b"ab1!.")); });
entry!(h_nested, { let k = rule(&["n12", "n14", "n15", "n10", "n7", "n8"]); args::run(k, among_upto(param(0), b"ab1(). ")); });
entry!(h_trivia, { let k = rule(&["n5", "n6", "n8", "n9", "n11", "s5", "s6", "s14", "s19"]); args::run(k, among_upto(param(0), b"ab,._ !")); });
// Calls of silent rules.
entry!(h_silent, { let k = rule(&["s1", "s2", "s3", "s4", "s7", "s8", "s9", "s10"]); args::run(k, among_upto(param(0), b"ab1k.")); });
entry!(h_silent2, { let k = rule(&["s11", "s12", "s13", "s15", "s16", "s17", "s18", "s20"]); args::run(k, among_upto(param(0), b"ab1().")); });
// Any rule, any characters.
entry!(h_any, { let k = args::any_rule(); args::run(k, text_upto(param(0), 2)); });
// Grammars put together at random.
include!("../gen/args.rs");
entry!(h_many, { let k = any_args(); run_args(k, among_upto(param(0), b"abc._ ")); });
entry!(h_many_any, { let k = any_args(); run_args(k, text_upto(param(0), 3)); });
// Calls that only pass on what they were given, through many levels.
mod levels {
    use h::*;
    use hrt::spec::{*, E::*};
const A: E = S("a");
const B: E = S("b");
const ONE: E = S("1");
const AB: E = Seq(&[(T::N, A), (T::N, B)]);
const BA: E = Seq(&[(T::N, B), (T::N, A)]);
macro_rules! q { ($a:expr, $b:expr) => { Seq(&[(T::N, $a), (T::N, $b)]) } }
macro_rules! t0 { ($p:expr, $q:expr, $r:expr) => { Alt(&[q!($p, $q), $r]) } }
macro_rules! n { ($e:expr; $n:ident $($m:ident)*) => { Inst(lev::Rule::$n as u32, false, &n!($e; $($m)*)) }; ($e:expr;) => { $e } }
const SB: E = Alt(&[q!(B, A), ONE]);
const VB: E = Seq(&[(T::N, SB), (T::O, B)]);
const V1: E = Seq(&[(T::N, ONE), (T::O, B)]);
const T3: E = t0!(A, ONE, B);
suite! { mod lev = r##"
~ = " "
_l0(x, y) = _{ x - y }
n0(x, y) = x - y
_l1(x, y) = _{ _l0(x, y) }
_l2(x, y) = _{ _l1(x, y) }
_l3(x, y) = _{ _l2(y, x) }
_l4(x, y) = _{ _l3(x, y) }
_l5(x, y) = _{ _l4(x, y) }
_l6(x, y) = _{ _l5(y, x) }
_l7(x, y) = _{ _l6(x, y) }
_l8(x, y) = _{ _l7(x, y) }
_l9(x, y) = _{ _l8(y, x) }
_l10(x, y) = _{ _l9(x, y) }
n1(x, y) = n0(y, x)
n2(x, y) = n1(y, x)
n3(x, y) = n2(y, x)
n4(x, y) = n3(y, x)
n5(x, y) = n4(y, x)
_t0(p, q, r) = _{ p - q | r }
_t1(p, q, r) = _{ _t0(q, r, p) }
_t2(p, q, r) = _{ _t1(q, r, p) }
_t3(p, q, r) = _{ _t2(r, q, p) - "."? }
_t4(p, q, r) = _{ (_t3(p, q, r))? - _t0(r, r, r) }
_w(x) = _{ x - x }
_v(x) = _{ _w(x ~ "b") }
_u(x) = _{ _v(x | "1") }
_s(x) = _{ (_u(x - "a"))? }
c3 = _l3("a", "b")
c4 = _l4("a", "b")
c5 = _l5("a", "b")
c10 = _l10("a", "b")
d5 = n5("a", "b")
d6 = n4(_l4("a", "b"), _l5("1", "."))
t3 = _t3("a", "b", "1")
t4 = _t4("a", "b", "1")
w1 = _s("b")
w2 = _w(_v("1"))
w3 = _l2(_l2(_l2("a", "b"), "1"), _l3("a", _l3("b", ".")))
"##; opt = Some(S(" ")); man = None;
    c3 = BA; c4 = BA; c5 = BA; c10 = BA;
    d5 = n!(BA; n5 n4 n3 n2 n1 n0);
    d6 = n!(q!(BA, q!(S("."), ONE)); n4 n3 n2 n1 n0);
    t3 = q!(T3, Opt(&S(".")));
    t4 = q!(Opt(&q!(T3, Opt(&S(".")))), t0!(ONE, ONE, ONE));
    w1 = Opt(&q!(VB, VB));
    w2 = q!(q!(V1, V1), q!(V1, V1));
    w3 = q!(q!(AB, ONE), q!(q!(S("."), B), A));
}
pub fn go(n: usize) { let k = lev::any_rule(); lev::run(k, among_upto(n, b"ab1. ")); }
}
entry!(h_levels, { levels::go(param(0)) });
// Parameters and rules that are called like built-in rules, imports, or things of the generated code and of Rust's core library.
mod named {
    use h::*;
    use hrt::spec::{*, E::*};
const A: E = S("a");
const B: E = S("b");
const DA: E = Seq(&[(T::N, S(".")), (T::N, A)]);
macro_rules! q { ($($a:expr),*) => { Seq(&[$((T::N, $a)),*]) } }
macro_rules! n { ($n:ident $($m:ident)*; $e:expr) => { Inst(nam::Rule::$n as u32, false, &n!($($m)*; $e)) }; (; $e:expr) => { $e } }
suite! { mod nam = r##"
use pest::any as dot
use pest::stack as st
~ = " "
any_of(any) = any - pest::any
hold(push) = pest::stack::push(push) - "." - pest::stack::pop
_quiet(peek) = _{ peek - pest::stack::push("b") - pest::stack::peek }
sh(dot) = dot - dot
_shs(dot) = _{ dot - pest::any }
keep(st) = st - st::push("b") - st::pop
_keeps(st) = _{ st - st::push("b") - st::pop }
both(pest) = pest - pest::any
_boths(pest, any) = _{ pest - pest::any - any? }
pair(Option) = (Option - "."?) | &Option
_pairs(Option, Vec, Box) = _{ Option - Vec* - Box? }
Some(None) = None - !None
types(T, R, S, F) = T - R? - S* - (F | "b")
Box(Rule, rules) = Rule - rules
_vec(i, Self_, String, str) = _{ i - (Self_ | String){1..2} - !str }
Option = "b" - "."?
Vec = Option~* - "a"
Result(Ok, Err) = Ok | Err
content(span, clone) = span - clone
c1 = any_of("a")
c2 = hold("a" | "b")
c3 = _quiet("a")
c4 = sh("a") - dot
c5 = _shs("." - "a")
c6 = keep("a")
c7 = _keeps("." - "a")
c8 = both("a") - _boths("a", "b")
c9 = pair("." - "a")
c10 = _pairs("a", "b", ".")
c11 = Some("a")
c12 = types("a", "b", ".", "." - "a")
c13 = Box(Option, "a")
c14 = _vec("a", "b", ".", "." - "a")
c15 = pair(Option) - _pairs(Option, Vec, "a")
c16 = Result(Vec, Option) - Result("a", Box(".", "b"))
c17 = content("a", "b") - content(content("a", "."), "b")
"##; opt = Some(S(" ")); man = None;
    Option = q!(B, Opt(&S(".")));
    Vec = q!(Rep(&x::Option, 0, usize::MAX, T::O), A);
    c1 = n!(any_of; q!(A, Any));
    c2 = n!(hold; q!(Push(&Alt(&[A, B])), S("."), Pop));
    c3 = q!(A, Push(&B), Peek);
    c4 = q!(n!(sh; q!(A, A)), Any);
    c5 = q!(DA, Any);
    c6 = n!(keep; q!(A, Push(&B), Pop));
    c7 = q!(DA, Push(&B), Pop);
    c8 = q!(n!(both; q!(A, Any)), q!(A, Any, Opt(&B)));
    c9 = n!(pair; Alt(&[q!(DA, Opt(&S("."))), Pos(&DA)]));
    c10 = q!(A, Rep(&B, 0, usize::MAX, T::N), Opt(&S(".")));
    c11 = n!(Some; q!(A, Neg(&A)));
    c12 = n!(types; q!(A, Opt(&B), Rep(&S("."), 0, usize::MAX, T::N), Alt(&[DA, B])));
    c13 = n!(Box; q!(x::Option, A));
    c14 = q!(A, Rep(&Alt(&[B, S(".")]), 1, 2, T::N), Neg(&DA));
    c15 = q!(n!(pair; Alt(&[q!(x::Option, Opt(&S("."))), Pos(&x::Option)])), q!(x::Option, Rep(&x::Vec, 0, usize::MAX, T::N), Opt(&A)));
    c16 = q!(n!(Result; Alt(&[x::Vec, x::Option])), n!(Result; Alt(&[A, n!(Box; q!(S("."), B))])));
    c17 = q!(n!(content; q!(A, B)), n!(content; q!(n!(content; q!(A, S("."))), B)));
}
pub fn go(n: usize) { let k = nam::any_rule(); nam::run(k, among_upto(n, b"ab. ")); }
}
entry!(h_named, { named::go(param(0)) });
harnesses!(h_named, h_levels, h_plain, h_nested, h_trivia, h_silent, h_silent2, h_any, h_many, h_many_any);
