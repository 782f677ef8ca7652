//! Ordered choice.
#![allow(non_upper_case_globals, unused)]
use h::*;
use hrt::spec::{*, E::*};
use pest3_core::choice::*;
use pest3_core::typed::template::{CharRange, Str};

suite! { mod g = r##"
two    = "a" | "b"
prefix = "a" | "ab" | "abc"
revpre = "abc" | "ab" | "a"
empty  = "a" | "" | "b"
commit = ("a" | "ab") - "c"
back   = ("ab" - "c" | "a" - "bd" | "ab") - "d"?
nest   = ("a" | ("b" | "c") - "x") | ("b" - ("y" | "z") | "c")
tail   = "a" - ("b" | "c" | "d") | "a" - "e" | i"A"
refs   = two - "c" | prefix | "d" - two
left   = (("a" | "b") | "c") | "d"
right  = "a" | ("b" | ("c" | "d"))
opts   = ("a"? | "b") - "b"
reps   = ("a"+ | "ab")+ - "b"?
pred   = &"a" - pest::any | !"b" - "c" | "b"
"##; opt = None; man = None;
    two = Alt(&[S("a"), S("b")]);
    prefix = Alt(&[S("a"), S("ab"), S("abc")]);
    revpre = Alt(&[S("abc"), S("ab"), S("a")]);
    empty = Alt(&[S("a"), S(""), S("b")]);
    commit = Seq(&[(T::N, Alt(&[S("a"), S("ab")])), (T::N, S("c"))]);
    back = Seq(&[(T::N, Alt(&[Seq(&[(T::N, S("ab")), (T::N, S("c"))]), Seq(&[(T::N, S("a")), (T::N, S("bd"))]), S("ab")])), (T::N, Opt(&S("d")))]);
    nest = Alt(&[S("a"), Seq(&[(T::N, Alt(&[S("b"), S("c")])), (T::N, S("x"))]), Seq(&[(T::N, S("b")), (T::N, Alt(&[S("y"), S("z")]))]), S("c")]);
    tail = Alt(&[Seq(&[(T::N, S("a")), (T::N, Alt(&[S("b"), S("c"), S("d")]))]), Seq(&[(T::N, S("a")), (T::N, S("e"))]), I("A")]);
    refs = Alt(&[Seq(&[(T::N, x::two), (T::N, S("c"))]), x::prefix, Seq(&[(T::N, S("d")), (T::N, x::two)])]);
    left = Alt(&[S("a"), S("b"), S("c"), S("d")]);
    right = Alt(&[S("a"), S("b"), S("c"), S("d")]);
    opts = Seq(&[(T::N, Alt(&[Opt(&S("a")), S("b")])), (T::N, S("b"))]);
    reps = Seq(&[(T::N, Rep(&Alt(&[Rep(&S("a"), 1, INF, T::N), S("ab")]), 1, INF, T::N)), (T::N, Opt(&S("b")))]);
    pred = Alt(&[Seq(&[(T::N, Pos(&S("a"))), (T::N, Any)]), Seq(&[(T::N, Neg(&S("b"))), (T::N, S("c"))]), S("b")]);
}
entry!(h_gen, {
    let k = g::any_rule();
    let s = ascii_upto(param(0));
    g::run(k, s);
});

// Choices of 2 to 18 alternatives. Alternative i of n accepts the letter i; a second family has overlapping alternatives.
mod many {
    use pest3::Parser;
    #[derive(Parser)]
    #[grammar_inline = r##"
a = "a"  b = "b"  c = "c"  d = "d"  e = "e"  f = "f"  g = "g"  h = "h"  i = "i"  j = "j"  k = "k"  l = "l"  m = "m"  n = "n"  o = "o"  p = "p"  q = "q"  r = "r"
c2 = a | b
c3 = a | b | c
c4 = a | b | c | d
c5 = a | b | c | d | e
c6 = a | b | c | d | e | f
c7 = a | b | c | d | e | f | g
c8 = a | b | c | d | e | f | g | h
c9 = a | b | c | d | e | f | g | h | i
c10 = a | b | c | d | e | f | g | h | i | j
c11 = a | b | c | d | e | f | g | h | i | j | k
c12 = a | b | c | d | e | f | g | h | i | j | k | l
c13 = a | b | c | d | e | f | g | h | i | j | k | l | m
c14 = a | b | c | d | e | f | g | h | i | j | k | l | m | n
c15 = a | b | c | d | e | f | g | h | i | j | k | l | m | n | o
c16 = a | b | c | d | e | f | g | h | i | j | k | l | m | n | o | p
c17 = a | b | c | d | e | f | g | h | i | j | k | l | m | n | o | p | q
c18 = a | b | c | d | e | f | g | h | i | j | k | l | m | n | o | p | q | r
u18 = 'a'..'a' | 'a'..'b' | 'a'..'c' | 'a'..'d' | 'a'..'e' | 'a'..'f' | 'a'..'g' | 'a'..'h' | 'a'..'i' | 'a'..'j' | 'a'..'k' | 'a'..'l' | 'a'..'m' | 'a'..'n' | 'a'..'o' | 'a'..'p' | 'a'..'q' | 'a'..'r'
"##]
    pub struct P;
}
use many::{rules as mr, Rule as MR};
/// The rule of alternative `i` is the child that a match leaves.
macro_rules! wide { ($k:expr, $s:expr; $($n:literal $r:ident),*) => { match $k { $($n => {
    let s = $s;
    let got = <mr::$r<'static> as TypedNode<'static, MR>>::try_parse_partial(s);
    let chk = <mr::$r<'static> as TypedNode<'static, MR>>::check_partial(s);
    let c = if s.is_empty() { 255 } else { s.as_bytes()[0] };
    let want = c >= b'a' && c < b'a' + $n;
    ck(got.is_ok() == want && chk.is_ok() == want, "verdict of a wide choice");
    cover(want as u32);
    if let Ok((p, t)) = got {
        ck(p.pos() == 1, "end of a wide choice");
        let t = PairTree::<MR>::as_pair_tree(&t);
        ck(t.children.len() == 1, "one alternative");
        let i = (c - b'a') as u64;
        ck(t.children[0].rule as u64 == MR::a as u64 + i, "another alternative than the matching one");
        trace(t.children[0].rule as u64);
    } else { trace(99) }
})* _ => {} } } }
entry!(h_wide, {
    let n = 2 + choose(17);
    let s = ascii_upto(param(0));
    wide!(n, s; 2 c2, 3 c3, 4 c4, 5 c5, 6 c6, 7 c7, 8 c8, 9 c9, 10 c10, 11 c11, 12 c12, 13 c13, 14 c14, 15 c15, 16 c16, 17 c17, 18 c18);
});
// Library types: which variant is recorded, and the getters.
type L<const Z: char> = CharRange<'a', Z>;
macro_rules! lib { ($k:expr, $s:expr; $($n:literal $ty:ty, [$($i:literal $get:ident),*]);*) => { match $k { $($n => {
    let s = $s;
    let got = <$ty as TypedNode<'static, Q>>::try_parse_partial(s);
    let chk = <$ty as TypedNode<'static, Q>>::check_partial(s);
    let c = if s.is_empty() { 255u8 } else { s.as_bytes()[0] };
    let want = c >= b'a' && c < b'a' + $n;
    cover(want as u32);
    ck(got.is_ok() == want && chk.is_ok() == want, "verdict of a library choice");
    if let Ok((p, t)) = got {
        ck(p.pos() == 1, "end of a library choice");
        // alternative i accepts a..=(a+i): the first that matches is the letter's own
        $(ck(t.$get().is_some() == (c == b'a' + $i), "the recorded variant is not the first matching one");
          if let Some(x) = t.$get() { ck(x.content as u32 == c as u32, "content of the variant") })*
    }
    trace(want as u64);
})* _ => {} } } }
entry!(h_lib, {
    let n = 2 + choose(15);
    let s = ascii_upto(param(0));
    lib!(n, s;
        2 Choice2<L<'a'>, L<'b'>>, [0 choice_0, 1 choice_1];
        3 Choice3<L<'a'>, L<'b'>, L<'c'>>, [0 choice_0, 1 choice_1, 2 choice_2];
        4 Choice4<L<'a'>, L<'b'>, L<'c'>, L<'d'>>, [0 choice_0, 1 choice_1, 2 choice_2, 3 choice_3];
        5 Choice5<L<'a'>, L<'b'>, L<'c'>, L<'d'>, L<'e'>>, [0 choice_0, 1 choice_1, 2 choice_2, 3 choice_3, 4 choice_4];
        6 Choice6<L<'a'>, L<'b'>, L<'c'>, L<'d'>, L<'e'>, L<'f'>>, [0 choice_0, 1 choice_1, 2 choice_2, 3 choice_3, 4 choice_4, 5 choice_5];
        7 Choice7<L<'a'>, L<'b'>, L<'c'>, L<'d'>, L<'e'>, L<'f'>, L<'g'>>, [0 choice_0, 1 choice_1, 2 choice_2, 3 choice_3, 4 choice_4, 5 choice_5, 6 choice_6];
        8 Choice8<L<'a'>, L<'b'>, L<'c'>, L<'d'>, L<'e'>, L<'f'>, L<'g'>, L<'h'>>, [0 choice_0, 1 choice_1, 2 choice_2, 3 choice_3, 4 choice_4, 5 choice_5, 6 choice_6, 7 choice_7];
        9 Choice9<L<'a'>, L<'b'>, L<'c'>, L<'d'>, L<'e'>, L<'f'>, L<'g'>, L<'h'>, L<'i'>>, [0 choice_0, 1 choice_1, 2 choice_2, 3 choice_3, 4 choice_4, 5 choice_5, 6 choice_6, 7 choice_7, 8 choice_8];
        10 Choice10<L<'a'>, L<'b'>, L<'c'>, L<'d'>, L<'e'>, L<'f'>, L<'g'>, L<'h'>, L<'i'>, L<'j'>>, [0 choice_0, 1 choice_1, 2 choice_2, 3 choice_3, 4 choice_4, 5 choice_5, 6 choice_6, 7 choice_7, 8 choice_8, 9 choice_9];
        11 Choice11<L<'a'>, L<'b'>, L<'c'>, L<'d'>, L<'e'>, L<'f'>, L<'g'>, L<'h'>, L<'i'>, L<'j'>, L<'k'>>, [0 choice_0, 1 choice_1, 2 choice_2, 3 choice_3, 4 choice_4, 5 choice_5, 6 choice_6, 7 choice_7, 8 choice_8, 9 choice_9, 10 choice_10];
        12 Choice12<L<'a'>, L<'b'>, L<'c'>, L<'d'>, L<'e'>, L<'f'>, L<'g'>, L<'h'>, L<'i'>, L<'j'>, L<'k'>, L<'l'>>, [0 choice_0, 1 choice_1, 2 choice_2, 3 choice_3, 4 choice_4, 5 choice_5, 6 choice_6, 7 choice_7, 8 choice_8, 9 choice_9, 10 choice_10, 11 choice_11];
        13 Choice13<L<'a'>, L<'b'>, L<'c'>, L<'d'>, L<'e'>, L<'f'>, L<'g'>, L<'h'>, L<'i'>, L<'j'>, L<'k'>, L<'l'>, L<'m'>>, [0 choice_0, 1 choice_1, 2 choice_2, 3 choice_3, 4 choice_4, 5 choice_5, 6 choice_6, 7 choice_7, 8 choice_8, 9 choice_9, 10 choice_10, 11 choice_11, 12 choice_12];
        14 Choice14<L<'a'>, L<'b'>, L<'c'>, L<'d'>, L<'e'>, L<'f'>, L<'g'>, L<'h'>, L<'i'>, L<'j'>, L<'k'>, L<'l'>, L<'m'>, L<'n'>>, [0 choice_0, 1 choice_1, 2 choice_2, 3 choice_3, 4 choice_4, 5 choice_5, 6 choice_6, 7 choice_7, 8 choice_8, 9 choice_9, 10 choice_10, 11 choice_11, 12 choice_12, 13 choice_13];
        15 Choice15<L<'a'>, L<'b'>, L<'c'>, L<'d'>, L<'e'>, L<'f'>, L<'g'>, L<'h'>, L<'i'>, L<'j'>, L<'k'>, L<'l'>, L<'m'>, L<'n'>, L<'o'>>, [0 choice_0, 1 choice_1, 2 choice_2, 3 choice_3, 4 choice_4, 5 choice_5, 6 choice_6, 7 choice_7, 8 choice_8, 9 choice_9, 10 choice_10, 11 choice_11, 12 choice_12, 13 choice_13, 14 choice_14];
        16 Choice16<L<'a'>, L<'b'>, L<'c'>, L<'d'>, L<'e'>, L<'f'>, L<'g'>, L<'h'>, L<'i'>, L<'j'>, L<'k'>, L<'l'>, L<'m'>, L<'n'>, L<'o'>, L<'p'>>, [0 choice_0, 1 choice_1, 2 choice_2, 3 choice_3, 4 choice_4, 5 choice_5, 6 choice_6, 7 choice_7, 8 choice_8, 9 choice_9, 10 choice_10, 11 choice_11, 12 choice_12, 13 choice_13, 14 choice_14, 15 choice_15]
    );
});
// Overlapping alternatives in a generated choice that is wider than the library's types.
entry!(h_overlap, {
    let s = ascii_upto(param(0));
    let got = <mr::u18<'static> as TypedNode<'static, MR>>::try_parse_partial(s);
    let want = !s.is_empty() && s.as_bytes()[0] >= b'a' && s.as_bytes()[0] <= b'r';
    ck(got.is_ok() == want, "verdict");
    cover(want as u32);
    if let Ok((p, t)) = got {
        ck(p.pos() == 1, "end");
        let c = &*t.content;
        let i = s.as_bytes()[0] - b'a';
        ck(c.choice_0().is_some() == (i == 0) && c.choice_1().is_some() == (i == 1) && c.choice_9().is_some() == (i == 9) && c.choice_16().is_some() == (i == 16) && c.choice_17().is_some() == (i == 17), "the recorded variant is not the first matching one");
    }
});
// Text before and after: the alternatives start where the choice starts.
strs! { Ab = "ab"; A = "a"; Bc = "bc"; }
entry!(h_at, {
    let (s, at) = text_at(param(0), 2);
    node_at::<Choice3<Str<Bc>, Str<Ab>, Str<A>>>(&NOG, &Alt(&[S("bc"), S("ab"), S("a")]), s, at);
});
// Grammars put together at random.
include!("../gen/choice.rs");
entry!(h_many, { let k = any_choice(); run_choice(k, among_upto(param(0), b"ab1.cB")); });
entry!(h_many_any, { let k = any_choice(); run_choice(k, text_upto(param(0), 3)); });
harnesses!(h_gen, h_wide, h_lib, h_overlap, h_at, h_many, h_many_any);
