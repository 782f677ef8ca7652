// A grammar that imports others.
mod imp {
    mod inner {
        use pest3::Parser;
        #[derive(Parser)]
        #[grammar_inline = r##"
use grammars::lib
use grammars::sub as other
use grammars::lib as lib2
use pest::any as dot
use pest::stack as st
use pest::stack::push as hold
use pest::unicode::greek as greek
use pest::ascii_digit
use pest::stack::peek as again
~ = " "
helper = "m"
item = "b" | helper
list = "[" ~ item ~ "]"
sep = "!"
m1 = lib::list ~ list?
m2 = item ~ lib::item ~ lib::helper? ~ helper
m3 = lib::pair(item)
m4 = lib::pair(lib::item) - lib::pair(other::word)?
m5 = lib::rec | lib::kept
m6 = lib::viasub - lib::sub::word?
m7 = other::word ~ lib2::item ~ other::item
m8 = lib::_sep(item, ",")
m9 = lib::_plain(item) ~ item?
m10 = lib::hid | lib::_hid ~ item
m11 = lib::dots ~ lib2::pair(helper)
m12 = dot - hold(dot) - st::pop - dot?
m13 = greek - ascii_digit?
m14 = lib::seps | lib::plain
m15 = (lib::item | other::item | item)~*
m16 = !lib::list - &lib::pair(helper) - helper
m17 = lib::both(item ~ item, lib2::both(helper, other::word))
m18 = lib::_two(helper) | lib::_rest - list
m19 = hold(item) - again[..1] - again[0..] - again - lib::kept
"##]
        pub struct P;
    }
    pub use inner::{rules, Rule};
}
macro_rules! numbers { ($f:ident, $r:ty, $m:ident: $($n:ident = $v:expr,)*; $($s:ident: $g:ident + $o:expr,)*) => {
    #[allow(unused)]
    mod $m { $(pub const $n: u32 = $v;)* }
    fn $f(r: $r) -> u32 { type R = $r; #[allow(unreachable_patterns)] match r { $(R::$n => $v,)* $(R::$s(x) => $o + $g(x),)* _ => 999 } }
} }
numbers!(sub_num, imp::rules::other::Rule, sub_id: helper = 0, word = 1, item = 2,;);
numbers!(lsub_num, imp::rules::lib::rules::sub::Rule, lsub_id: helper = 0, word = 1, item = 2,;);
numbers!(l2sub_num, imp::rules::lib2::rules::sub::Rule, l2sub_id: helper = 0, word = 1, item = 2,;);
numbers!(lib_num, imp::rules::lib::Rule, lib_id: note = 0, helper = 1, item = 2, list = 3, dots = 4, pair = 5, both = 6, hid = 7, seps = 8, plain = 9, rec = 10, viasub = 11, kept = 12,; sub: lsub_num + 20,);
numbers!(lib2_num, imp::rules::lib2::Rule, lib2_id: note = 0, helper = 1, item = 2, list = 3, dots = 4, pair = 5, both = 6, hid = 7, seps = 8, plain = 9, rec = 10, viasub = 11, kept = 12,; sub: l2sub_num + 20,);
numbers!(num, imp::Rule, id: helper = 0, item = 1, list = 2, sep = 3, m1 = 11, m2 = 12, m3 = 13, m4 = 14, m5 = 15, m6 = 16, m7 = 17, m8 = 18, m9 = 19, m10 = 20, m11 = 21, m12 = 22, m13 = 23, m14 = 24, m15 = 25, m16 = 26, m17 = 27, m18 = 28, m19 = 29,;
    lib: lib_num + 100, other: sub_num + 200, lib2: lib2_num + 300,);
// The imported grammars' meaning.
static SUB: Gram = Gram { rules: &[
    (0, false, S("s")),
    (1, false, Seq(&[(T::N, Rule(0)), (T::O, Opt(&Rule(0)))])),
    (2, false, Alt(&[S("i"), Seq(&[(T::N, S("a")), (T::N, S("i"))])])),
], opt: Some(S("+")), man: None };
const SUBWORD: E = In(&SUB, 20, &Rule(1));
const ITEM: E = Rule(2);
const HELP: E = Rule(1);
const HID: E = Rule(13);
static LIB: Gram = Gram { rules: &[
    (0, false, Seq(&[(T::N, S("#")), (T::N, Opt(&ITEM)), (T::N, S(";"))])),
    (1, false, S("h")),
    (2, false, Alt(&[S("a"), HELP])),
    (3, false, Seq(&[(T::N, S("(")), (T::O, ITEM), (T::O, Rep(&Seq(&[(T::N, S(",")), (T::O, ITEM)]), 0, INF, T::O)), (T::O, S(")"))])),
    (4, false, Rep(&ITEM, 1, INF, T::M)),
    (5, false, Never), (6, false, Never),
    (7, false, Seq(&[(T::N, HID), (T::N, S("!"))])),
    (8, false, Seq(&[(T::N, ITEM), (T::O, Rep(&Seq(&[(T::N, S(",")), (T::O, ITEM)]), 0, INF, T::O))])),
    (9, false, Seq(&[(T::N, ITEM), (T::N, HELP)])),
    (10, false, Seq(&[(T::N, S("<")), (T::O, Alt(&[Rule(10), ITEM])), (T::O, S(">"))])),
    (11, false, Seq(&[(T::N, SUBWORD), (T::O, ITEM)])),
    (12, false, Seq(&[(T::N, Push(&ITEM)), (T::N, S(".")), (T::N, Pop)])),
    (13, true, Seq(&[(T::N, ITEM), (T::O, S("z"))])),
    (14, true, Rep(&ITEM, 0, INF, T::N)),
], opt: Some(Alt(&[S("_"), Rule(0)])), man: Some(S(".")) };
macro_rules! lib { ($e:expr) => { In(&LIB, 100, &$e) } }
macro_rules! lib2 { ($e:expr) => { In(&LIB, 300, &$e) } }
macro_rules! pair { ($e:expr) => { Inst(5, false, &Seq(&[(T::N, Out(&$e)), (T::O, Out(&$e))])) } }
macro_rules! both { ($e:expr, $f:expr) => { Inst(6, false, &Alt(&[Seq(&[(T::N, Out(&$e)), (T::M, Out(&$f))]), Seq(&[(T::N, HELP), (T::N, Out(&$f))])])) } }
const OWORD: E = In(&SUB, 200, &Rule(1));
const OITEM: E = In(&SUB, 200, &Rule(2));
const MH: E = Rule(0);
const MI: E = Rule(1);
const ML: E = Rule(2);
fn is_greek(c: u32) -> bool { char::from_u32(c).map_or(false, pest3_core::unicode::GREEK) }
static MAIN: Gram = Gram { rules: &[
    (id::helper, false, S("m")),
    (id::item, false, Alt(&[S("b"), MH])),
    (id::list, false, Seq(&[(T::N, S("[")), (T::O, MI), (T::O, S("]"))])),
    (id::m1, false, Seq(&[(T::N, lib!(Rule(3))), (T::O, Opt(&ML))])),
    (id::m2, false, Seq(&[(T::N, MI), (T::O, lib!(ITEM)), (T::O, Opt(&lib!(HELP))), (T::O, MH)])),
    (id::m3, false, lib!(pair!(MI))),
    (id::m4, false, Seq(&[(T::N, lib!(pair!(lib!(ITEM)))), (T::N, Opt(&lib!(pair!(OWORD))))])),
    (id::m5, false, Alt(&[lib!(Rule(10)), lib!(Rule(12))])),
    (id::m6, false, Seq(&[(T::N, lib!(Rule(11))), (T::N, Opt(&lib!(SUBWORD)))])),
    (id::m7, false, Seq(&[(T::N, OWORD), (T::O, lib2!(ITEM)), (T::O, OITEM)])),
    (id::m8, false, lib!(Seq(&[(T::N, Out(&MI)), (T::O, Rep(&Seq(&[(T::N, S(",")), (T::O, Out(&MI))]), 0, INF, T::O))]))),
    (id::m9, false, Seq(&[(T::N, lib!(Seq(&[(T::N, Out(&MI)), (T::N, HELP)]))), (T::O, Opt(&MI))])),
    (id::m10, false, Alt(&[lib!(Rule(7)), Seq(&[(T::N, lib!(HID)), (T::O, MI)])])),
    (id::m11, false, Seq(&[(T::N, lib!(Rule(4))), (T::O, lib2!(pair!(MH)))])),
    (id::m12, false, Seq(&[(T::N, Any), (T::N, Push(&Any)), (T::N, Pop), (T::N, Opt(&Any))])),
    (id::m13, false, Seq(&[(T::N, C(is_greek)), (T::N, Opt(&R('0', '9')))])),
    (id::m14, false, Alt(&[lib!(Rule(8)), lib!(Rule(9))])),
    (id::m15, false, Rep(&Alt(&[lib!(ITEM), OITEM, MI]), 0, INF, T::O)),
    (id::m16, false, Seq(&[(T::N, Neg(&lib!(Rule(3)))), (T::N, Pos(&lib!(pair!(MH)))), (T::N, MH)])),
    (id::m17, false, lib!(both!(Seq(&[(T::N, MI), (T::O, MI)]), lib2!(both!(MH, OWORD))))),
    (id::m18, false, Alt(&[lib!(Seq(&[(T::N, Seq(&[(T::N, Out(&MH)), (T::N, HELP)])), (T::N, Opt(&SUBWORD))])), Seq(&[(T::N, lib!(Rule(14))), (T::N, ML)])])),
    (id::m19, false, Seq(&[(T::N, Push(&MI)), (T::N, Slice(0, Some(1))), (T::N, Slice(0, None)), (T::N, Peek), (T::N, lib!(Rule(12)))])),
], opt: Some(S(" ")), man: None };
macro_rules! importing { ($($n:ident = $k:expr;)*) => {
    const RULES: &[&str] = &[$(stringify!($n)),*];
    fn importing(k: usize, s: &'static str) { match k { $($k => { against_spec!(imp::rules::$n<'static>, imp::Rule, &MAIN, &E::Rule($k), s, num); })* _ => fail("no such rule") } }
} }
importing! { helper = 0; item = 1; list = 2; m1 = 3; m2 = 4; m3 = 5; m4 = 6; m5 = 7; m6 = 8; m7 = 9; m8 = 10; m9 = 11; m10 = 12; m11 = 13; m12 = 14; m13 = 15; m14 = 16; m15 = 17; m16 = 18; m17 = 19; m18 = 20; m19 = 21; }
// The imported rules as entries of their own, with the numbers of their own grammar.
macro_rules! imported { ($($n:ident = $k:expr;)*) => {
    fn imported(k: usize, s: &'static str) { match k { $($k => {
        against_spec!(imp::rules::lib::rules::$n<'static>, imp::rules::lib::Rule, &LIB, &E::Rule($k), s, lib_num);
    })* _ => fail("no such rule") } }
    fn imported_up(k: usize, s: &'static str) { match k { $($k => {
        against_spec!(imp::rules::lib2::rules::$n<'static>, imp::Rule, &MAIN, &lib2!(E::Rule($k)), s, num);
    })* _ => fail("no such rule") } }
} }
imported! { note = 0; helper = 1; item = 2; list = 3; dots = 4; hid = 7; seps = 8; plain = 9; rec = 10; viasub = 11; kept = 12; }
