//! Imported grammars and aliases.
#![allow(non_upper_case_globals)]
use h::*;
use hrt::spec::{*, E::*};
include!("../imp.rs");
fn rule(names: &[&str]) -> usize {
    let name = names[choose(names.len())];
    let mut i = 0;
    while i < RULES.len() { if RULES[i] == name { return i } i += 1 }
    fail("no such rule")
}
entry!(h_lists, { let k = rule(&["m1", "m3", "m8", "m14", "m11", "list"]); importing(k, among_upto(param(0), b"(a,)_bm [].h")); });
entry!(h_names, { let k = rule(&["m2", "m9", "m10", "m16", "m18", "m15"]); importing(k, among_upto(param(0), b"abhm zs![]_i+")); });
entry!(h_sub, { let k = rule(&["m4", "m6", "m7", "m17"]); importing(k, among_upto(param(0), b"s+ahi_ .mb")); });
entry!(h_builtin, { let k = rule(&["m12", "m13", "m19"]); importing(k, text_upto(param(0), 4)); });
entry!(h_stack, { let k = rule(&["m5", "m12", "m19"]); importing(k, among_upto(param(0), b"ab.<>_#;m")); });
entry!(h_own, { let k = [0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 12][choose(11)]; let s = among_upto(param(0), b"#ah;(,)_.!z<>s+ "); if flip() { imported(k, s) } else { imported_up(k, s) } });
mod custom {
    mod inner {
        use pest3::Parser;
        #[derive(Parser)]
        #[rules_mod = "named"]
        #[grammar_inline = r##"
use grammars::sub
~ = " "
item = "b"
top = sub::word ~ item ~ sub::item?
"##]
        pub struct P;
    }
    pub use inner::{named, Rule};
}
numbers!(csub_num, custom::named::sub::Rule, csub_id: helper = 0, word = 1, item = 2,;);
numbers!(cnum, custom::Rule, cid: item = 0, top = 1,; sub: csub_num + 20,);
static CUSTOM: Gram = Gram { rules: &[
    (0, false, S("b")),
    (1, false, Seq(&[(T::N, SUBWORD), (T::O, Rule(0)), (T::O, Opt(&In(&SUB, 20, &Rule(2))))])),
], opt: Some(S(" ")), man: None };
// A module of rules under another name.
entry!(h_custom, { against_spec!(custom::named::top<'static>, custom::Rule, &CUSTOM, &Rule(1), among_upto(param(0), b"s+bi a"), cnum); });
// Modules in nested directories, some of the same name, importing each other upwards and downwards.
mod nested {
    mod inner {
        use pest3::Parser;
        #[derive(Parser)]
        #[grammar_inline = r##"
use grammars::deep::sub
use grammars::sub as other
use grammars::deep::below::leaf as low
item = "t"
~ = " "
d1 = sub::word ~ item
d2 = other::word ~ sub::item ~ low::leaf
d3 = low::two(sub::leaf::leaf)
d4 = sub::up::item ~ sub::leaf::sub::helper
d5 = low::two(low::two(item) - sub::item)
d6 = sub::far - !other::item - item
"##]
        pub struct P;
    }
    pub use inner::{rules, Rule};
}
mod nid {
    use super::*;
    use nested::rules as n;
    numbers!(up, n::sub::rules::up::Rule, a: helper = 0, word = 1, item = 2,;);
    numbers!(leafsub, n::sub::rules::leaf::rules::sub::Rule, b: helper = 0, word = 1, item = 2,;);
    numbers!(leaf, n::sub::rules::leaf::Rule, c: leaf = 0, two = 1,; sub: leafsub + 10,);
    numbers!(sub, n::sub::Rule, d: item = 0, word = 1, far = 2,; up: up + 10, leaf: leaf + 20,);
    numbers!(other, n::other::Rule, e: helper = 0, word = 1, item = 2,;);
    numbers!(lowsub, n::low::rules::sub::Rule, f: helper = 0, word = 1, item = 2,;);
    numbers!(low, n::low::Rule, g: leaf = 0, two = 1,; sub: lowsub + 10,);
    numbers!(top_, nested::Rule, h: item = 0, d1 = 1, d2 = 2, d3 = 3, d4 = 4, d5 = 5, d6 = 6,; sub: sub + 100, other: other + 200, low: low + 300,);
    pub fn top(r: nested::Rule) -> u32 { top_(r) }
}
macro_rules! two { ($e:expr) => { Inst(1, false, &Seq(&[(T::N, Out(&$e)), (T::O, Out(&$e))])) } }
static LEAF: Gram = Gram { rules: &[(0, false, Seq(&[(T::N, S("l")), (T::O, Opt(&In(&SUB, 10, &Rule(2))))])), (1, false, Never)], opt: Some(S("=")), man: None };
static DEEP: Gram = Gram { rules: &[
    (0, false, Alt(&[S("d"), In(&LEAF, 20, &Rule(0))])),
    (1, false, Seq(&[(T::N, Rule(0)), (T::O, In(&SUB, 10, &Rule(1)))])),
    (2, false, In(&LEAF, 20, &two!(Rule(0)))),
], opt: Some(S("-")), man: None };
const NT: E = Rule(0);
const NITEM: E = In(&DEEP, 100, &Rule(0));
static NESTED: Gram = Gram { rules: &[
    (0, false, S("t")),
    (1, false, Seq(&[(T::N, In(&DEEP, 100, &Rule(1))), (T::O, NT)])),
    (2, false, Seq(&[(T::N, In(&SUB, 200, &Rule(1))), (T::O, NITEM), (T::O, In(&LEAF, 300, &Rule(0)))])),
    (3, false, In(&LEAF, 300, &two!(In(&DEEP, 100, &In(&LEAF, 20, &Rule(0)))))),
    (4, false, Seq(&[(T::N, In(&DEEP, 100, &In(&SUB, 10, &Rule(2)))), (T::O, In(&DEEP, 100, &In(&LEAF, 20, &In(&SUB, 10, &Rule(0)))))])),
    (5, false, In(&LEAF, 300, &two!(Seq(&[(T::N, In(&LEAF, 300, &two!(NT))), (T::N, NITEM)])))),
    (6, false, Seq(&[(T::N, In(&DEEP, 100, &Rule(2))), (T::N, Neg(&In(&SUB, 200, &Rule(2)))), (T::N, NT)])),
], opt: Some(S(" ")), man: None };
entry!(h_nested, {
    let s = among_upto(param(0), b"dtils+-= a");
    macro_rules! one { ($k:expr; $($n:ident $v:literal)*) => { match $k { $($v => { against_spec!(nested::rules::$n<'static>, nested::Rule, &NESTED, &Rule($v), s, nid::top); })* _ => fail("no such rule") } } }
    one!(choose(7); item 0 d1 1 d2 2 d3 3 d4 4 d5 5 d6 6)
});
// Silent rules with arguments of another module, which call each other with rules of their own.
mod generic {
    mod inner {
        use pest3::Parser;
        #[derive(Parser)]
        #[grammar_inline = r##"
use grammars::gen as m
~ = " "
h = "x"
w(x) = "[" - x ~ "]"
g1 = m::_f("1")
g2 = m::_g(h, m::h)
g3 = m::_k(h ~ h)
g4 = m::_f(m::_f(h))
g5 = m::_r(h) - m::_r(w(m::h))?
g6 = m::_e(h, w("1")) ~ m::_b(h, "1")?
"##]
        pub struct P;
    }
    pub use inner::{rules, Rule};
}
numbers!(gen_num, generic::rules::m::Rule, gen_id: h = 0, w = 1,;);
numbers!(gtop, generic::Rule, gtop_id: h = 0, w = 1, g1 = 2, g2 = 3, g3 = 4, g4 = 5, g5 = 6, g6 = 7,; m: gen_num + 20,);
static GEN: Gram = Gram { rules: &[(0, false, S("y")), (1, false, Never)], opt: Some(S("+")), man: None };
const GH: E = Rule(0);
macro_rules! gw { ($e:expr) => { Inst(1, false, &Seq(&[(T::N, S("(")), (T::N, $e), (T::O, S(")"))])) } }
macro_rules! tw { ($e:expr) => { Inst(1, false, &Seq(&[(T::N, S("[")), (T::N, $e), (T::O, S("]"))])) } }
macro_rules! gin { ($e:expr) => { In(&GEN, 20, &$e) } }
macro_rules! v { ($a:expr, $b:expr) => { Seq(&[(T::N, $a), (T::N, $b)]) } }
macro_rules! gf { ($e:expr) => { gin!(v!(gw!(GH), Out(&$e))) } }
macro_rules! gr { ($e:expr) => { gin!(v!(Opt(&v!(Neg(&GH), Out(&$e))), gw!(Seq(&[(T::N, gw!(Out(&$e))), (T::O, GH)])))) } }
const HH: E = Seq(&[(T::N, Rule(0)), (T::O, Rule(0))]);
static GENERIC: Gram = Gram { rules: &[
    (0, false, S("x")),
    (1, false, Never),
    (2, false, gf!(S("1"))),
    (3, false, gin!(v!(gw!(Out(&Rule(0))), v!(GH, Out(&gin!(GH)))))),
    (4, false, gin!(v!(Out(&HH), gw!(v!(GH, Out(&HH)))))),
    (5, false, gf!(gf!(Rule(0)))),
    (6, false, v!(gr!(Rule(0)), Opt(&gr!(tw!(gin!(GH)))))),
    (7, false, Seq(&[(T::N, gin!(v!(gw!(Seq(&[(T::N, Out(&Rule(0))), (T::O, GH)])), Out(&tw!(S("1")))))), (T::O, Opt(&gin!(v!(Out(&Rule(0)), Out(&S("1"))))))])),
], opt: Some(S(" ")), man: None };
entry!(h_generic, {
    let s = among_upto(param(0), b"xy()[]1+ ");
    macro_rules! one { ($k:expr; $($n:ident $v:literal)*) => { match $k { $($v => { against_spec!(generic::rules::$n<'static>, generic::Rule, &GENERIC, &Rule($v), s, gtop); })* _ => fail("no such rule") } } }
    one!(2 + choose(6); g1 2 g2 3 g3 4 g4 5 g5 6 g6 7)
});
// Longer texts around what they accept.
entry!(h_generic_near, {
    let (k, t) = [(3, "(x)yy"), (4, "x x(yx x+)"), (5, "(y)(y+)x"), (6, "x((x+)y)[y]((y)+y)"), (6, "((x)+y)"), (7, "(x+y)[1] x1"), (7, "(x+y)[1]")][choose(7)];
    let s = window(t, param(0), param(1));
    macro_rules! one { ($k:expr; $($n:ident $v:literal)*) => { match $k { $($v => { against_spec!(generic::rules::$n<'static>, generic::Rule, &GENERIC, &Rule($v), s, gtop); })* _ => fail("no such rule") } } }
    one!(k; g1 2 g2 3 g3 4 g4 5 g5 6 g6 7)
});
harnesses!(h_generic, h_generic_near, h_nested, h_custom, h_lists, h_names, h_sub, h_builtin, h_stack, h_own);
