//! What is given to the derive macro: several sources, and attributes.
#![allow(non_upper_case_globals, unused)]
use h::*;
use hrt::spec::{*, E::*};
// One grammar from three sources, one of them a file.
macro_rules! whole { ($($m:ident $list:ident { $($attr:tt)* } { $($item:tt)* };)*) => { $(
    mod $m {
        mod inner {
            use pest3::Parser;
            #[derive(Parser)]
            $($attr)*
            #[grammar_inline = r##"
//! The first part.
use pest::any as dot
~ = " "
item = "a" | num | list
digit = &dot - '0'..'9'
_hush = _{ item ~ "!" }
"##]
            #[grammar = "grammars/part.pest"]
            #[grammar_inline = r##"
//! The last part.
use pest::stack as st
use pest::any
kept = st::push(item) - "." - st::pop | digit
seps = _sep(item, ";") ^ two(num)
/// Ahead.
ahead = &(list - any) ~ !"((" - list - _hush?
rep = (item ~ "-"){2..} - any^*
"##]
            $($item)*
        }
        pub use inner::*;
    }
)* } }
whole! {
    plain l { } { pub struct P; };
    nopair l { #[no_pair] } { pub struct P; };
    nospan l { #[no_span] #[no_warnings = true] } { pub struct P; };
    boxed l { #[box_rules_only_if_needed] #[no_getter = true] } { pub struct P; };
    kind l { #[no_pair = false] #[box_rules_only_if_needed = false] } { pub(super) struct P<T: Clone>(T); };
    var l { #[no_warnings] #[no_span = false] } { #[derive(Clone, Debug)] pub enum P { A(u8), B } };
    named l { #[rules_mod = "other"] #[no_getter] } { pub struct P; };
}
pub enum Ix { item, digit, _hush, list, num, kept, seps, ahead, rep }
const fn r(i: Ix) -> E { Rule(i as usize) }
const fn n(r: plain::Rule) -> u32 { r as u32 }
const DIGIT: E = r(Ix::digit);
const ITEM: E = r(Ix::item);
const NUM: E = r(Ix::num);
static G: Gram = Gram { opt: Some(S(" ")), man: Some(Rep(&S("_"), 1, INF, T::N)), rules: &[
    (n(plain::Rule::item), false, Alt(&[S("a"), NUM, r(Ix::list)])),
    (n(plain::Rule::digit), false, Seq(&[(T::N, Pos(&Any)), (T::N, R('0', '9'))])),
    (n(plain::Rule::_hush), true, Seq(&[(T::N, ITEM), (T::O, S("!"))])),
    (n(plain::Rule::list), false, Seq(&[(T::N, S("(")), (T::O, Opt(&Seq(&[(T::N, ITEM), (T::O, Rep(&Seq(&[(T::N, S(",")), (T::O, ITEM)]), 0, INF, T::O))]))), (T::O, S(")"))])),
    (n(plain::Rule::num), false, Rep(&DIGIT, 1, 2, T::N)),
    (n(plain::Rule::kept), false, Alt(&[Seq(&[(T::N, Push(&ITEM)), (T::N, S(".")), (T::N, Pop)]), DIGIT])),
    (n(plain::Rule::seps), false, Seq(&[(T::N, Seq(&[(T::N, ITEM), (T::O, Rep(&Seq(&[(T::N, S(";")), (T::O, ITEM)]), 0, INF, T::O))])), (T::M, Inst(n(plain::Rule::two), false, &Seq(&[(T::N, NUM), (T::N, r(Ix::kept)), (T::N, NUM)])))])),
    (n(plain::Rule::ahead), false, Seq(&[(T::N, Pos(&Seq(&[(T::N, r(Ix::list)), (T::N, Any)]))), (T::O, Neg(&S("(("))), (T::N, r(Ix::list)), (T::N, Opt(&r(Ix::_hush)))])),
    (n(plain::Rule::rep), false, Seq(&[(T::N, Rep(&Seq(&[(T::N, ITEM), (T::O, S("-"))]), 2, INF, T::N)), (T::N, Rep(&Any, 0, INF, T::M))])),
] };
fn num(r: plain::Rule) -> u32 { r as u32 }
macro_rules! go { ($k:expr, $s:expr; $($n:ident)*) => { $(if $k == Ix::$n as usize { against_spec!(plain::rules::$n<'static>, plain::Rule, &G, &r(Ix::$n), $s, num); })* } }
macro_rules! gos { ($k:expr, $s:expr) => { go!($k, $s; item digit _hush list num kept seps ahead rep) } }
const ALPHA: &[u8] = b"a1(,) ;_.!-";
// Several sources make one grammar.
entry!(h_sources, { let k = choose(9); gos!(k, among_upto(param(0), ALPHA)); });
entry!(h_sources_any, { let k = choose(9); gos!(k, ascii_upto(param(0))); });
/// What a parser says about a text.
struct Said { end: Option<usize>, check: Option<usize>, whole: bool, whole_check: bool, at: Option<usize>, message: String }
fn say<R: RuleType, N: TypedNode<'static, R>>(s: &'static str) -> Said {
    let got = N::try_parse_partial(s);
    let check = N::check_partial(s).ok().map(|p| p.pos());
    let full = N::try_parse(s);
    let whole_check = N::check(s).is_ok();
    let whole = full.is_ok();
    let (mut at, mut message) = (None, String::new());
    if let Err(e) = full {
        at = Some(match e.location { pest3_core::error::InputLocation::Pos(p) => p, pest3_core::error::InputLocation::Span((a, _)) => a });
        message.push_str(&e.variant.message());
    }
    Said { end: got.ok().map(|x| x.0.pos()), check, whole, whole_check, at, message }
}
fn equal(a: Said, b: Said) {
    ck(a.end == b.end, "an attribute changes where a match ends");
    ck(a.check == b.check, "an attribute changes where a check ends");
    ck(a.whole == b.whole && a.whole_check == b.whole_check, "an attribute changes the verdict");
    ck(a.at == b.at, "an attribute changes where a failure is");
    let (x, y) = (a.message.as_bytes(), b.message.as_bytes());
    ck(x.len() == y.len(), "an attribute changes the report");
    for i in 0..x.len() { ck(x[i] == y[i], "an attribute changes the report") }
    trace(a.end.map_or(99, |x| x as u64));
    cover(a.whole as u32);
}
fn pairs<R: RuleType, N: TypedNode<'static, R> + PairContainer<R>>(s: &'static str, num: fn(R) -> u32) -> Vec<hrt::spec::Node> {
    let mut v = Vec::new();
    if let Ok((_, n)) = N::try_parse_partial(s) { n.for_self_or_for_each_child_pair(&mut |p| flatten(&p, num, 0, &mut v)) }
    v
}
macro_rules! both { ($k:expr, $s:expr, $m:ident, $rules:ident, $p:tt; $($n:ident)*) => { $(if $k == Ix::$n as usize {
    equal(say::<plain::Rule, plain::rules::$n<'static>>($s), say::<$m::Rule, $m::$rules::$n<'static>>($s));
    with_pairs!($p, $s, $m, $rules, $n);
})* } }
macro_rules! with_pairs {
    (no, $s:expr, $m:ident, $rules:ident, $n:ident) => {};
    (yes, $s:expr, $m:ident, $rules:ident, $n:ident) => {
        ck(same(&pairs::<plain::Rule, plain::rules::$n<'static>>($s, num), &pairs::<$m::Rule, $m::$rules::$n<'static>>($s, |r| r as u32)), "an attribute changes the pairs");
    };
}
entry!(h_attributes, {
    let k = choose(9);
    let s = among_upto(param(0), ALPHA);
    match choose(6) {
        0 => { both!(k, s, nopair, rules, no; item digit _hush list num kept seps ahead rep); }
        1 => { both!(k, s, nospan, rules, yes; item digit _hush list num kept seps ahead rep); }
        2 => { both!(k, s, boxed, rules, yes; item digit _hush list num kept seps ahead rep); }
        3 => { both!(k, s, kind, rules, yes; item digit _hush list num kept seps ahead rep); }
        4 => { both!(k, s, var, rules, yes; item digit _hush list num kept seps ahead rep); }
        _ => { both!(k, s, named, other, yes; item digit _hush list num kept seps ahead rep); }
    }
});
harnesses!(h_sources, h_sources_any, h_attributes);
