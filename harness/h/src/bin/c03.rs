//! Sequences and the trivia between their parts.
#![allow(non_upper_case_globals, unused)]
use h::*;
use hrt::spec::{*, E::*};
use pest3::Parser;
use pest3_core::sequence::*;
use pest3_core::typed::template::{Empty, Str};
use pest3_core::typed::template as t;

#[derive(Parser)]
#[grammar_inline = r##"
~ = (" " | note)*
^ = "." ~ "!"?
note = "#" - (!";" - pest::any)* - ";"
two   = "a" - "b"
opt   = "a" ~ "b" ~ "c"
man   = "a" ^ "b" ^ "c"
mix   = "a" - "b" ~ "c" ^ "d" - "e"
mix2  = "a" ^ "b" - "c" ~ "d"
maybe = "a"? ~ "b"? ^ "c"?
sub   = ("a" ~ "b") - ("c" ^ "d") ~ "e"
left  = (("a" - "b") ~ "c") ^ "d"
inner = "a" ~ ("b" | "c" - "d") ~ "e"
refs  = two ~ two ^ two
"##]
struct P;
static SP: E = S(" ");
static G: Gram = Gram { rules: &[
    (Rule::note as u32, false, Seq(&[(T::N, S("#")), (T::N, Rep(&Seq(&[(T::N, Neg(&S(";"))), (T::N, Any)]), 0, INF, T::N)), (T::N, S(";"))])),
    (Rule::two as u32, false, Seq(&[(T::N, S("a")), (T::N, S("b"))])),
    (Rule::opt as u32, false, Seq(&[(T::N, S("a")), (T::O, S("b")), (T::O, S("c"))])),
    (Rule::man as u32, false, Seq(&[(T::N, S("a")), (T::M, S("b")), (T::M, S("c"))])),
    (Rule::mix as u32, false, Seq(&[(T::N, S("a")), (T::N, S("b")), (T::O, S("c")), (T::M, S("d")), (T::N, S("e"))])),
    (Rule::mix2 as u32, false, Seq(&[(T::N, S("a")), (T::M, S("b")), (T::N, S("c")), (T::O, S("d"))])),
    (Rule::maybe as u32, false, Seq(&[(T::N, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::M, Opt(&S("c")))])),
    (Rule::sub as u32, false, Seq(&[(T::N, Seq(&[(T::N, S("a")), (T::O, S("b"))])), (T::N, Seq(&[(T::N, S("c")), (T::M, S("d"))])), (T::O, S("e"))])),
    (Rule::left as u32, false, Seq(&[(T::N, Seq(&[(T::N, Seq(&[(T::N, S("a")), (T::N, S("b"))])), (T::O, S("c"))])), (T::M, S("d"))])),
    (Rule::inner as u32, false, Seq(&[(T::N, S("a")), (T::O, Alt(&[S("b"), Seq(&[(T::N, S("c")), (T::N, S("d"))])])), (T::O, S("e"))])),
    (Rule::refs as u32, false, Seq(&[(T::N, E::Rule(1)), (T::O, E::Rule(1)), (T::M, E::Rule(1))])),
], opt: Some(Rep(&Alt(&[S(" "), E::Rule(0)]), 0, INF, T::N)), man: Some(Seq(&[(T::N, S(".")), (T::O, Opt(&S("!")))])) };
fn num(r: Rule) -> u32 { r as u32 }
macro_rules! all { ($k:expr, $s:expr; $($i:literal $n:ident),*) => { match $k { $($i => { against_spec!(rules::$n<'static>, Rule, &G, &E::Rule($i), $s, num); })* _ => {} } } }
entry!(h_gen, {
    let k = 1 + choose(10);
    let s = ascii_upto(param(0));
    all!(k, s; 1 two, 2 opt, 3 man, 4 mix, 5 mix2, 6 maybe, 7 sub, 8 left, 9 inner, 10 refs);
});
// Longer inputs: a window of a matching text replaced by arbitrary bytes.
entry!(h_gen_long, {
    let k = choose(9);
    let base = ["a b#x;c", "a.b. !c", "ab #;c.!d", "a. b", "a b.c", "a bc.d e", "ab c. !d", "a cd e", "ab ab.ab"][k];
    let base = if k == 3 { "a.bc d" } else { base };
    let s = window(base, param(0), param(1));
    let k = [2, 3, 4, 5, 6, 7, 8, 9, 10][k];
    all!(k, s; 2 opt, 3 man, 4 mix, 5 mix2, 6 maybe, 7 sub, 8 left, 9 inner, 10 refs);
});

mod many {
    use pest3::Parser;
    #[derive(Parser)]
    #[grammar_inline = r##"
~ = " "?
^ = "."
n2 = "a" - "b"
n3 = "a" - "b" - "c"
n4 = "a" - "b" - "c" - "d"
n5 = "a" - "b" - "c" - "d" - "e"
n6 = "a" - "b" - "c" - "d" - "e" - "f"
n7 = "a" - "b" - "c" - "d" - "e" - "f" - "g"
n8 = "a" - "b" - "c" - "d" - "e" - "f" - "g" - "h"
n9 = "a" - "b" - "c" - "d" - "e" - "f" - "g" - "h" - "i"
n10 = "a" - "b" - "c" - "d" - "e" - "f" - "g" - "h" - "i" - "j"
n11 = "a" - "b" - "c" - "d" - "e" - "f" - "g" - "h" - "i" - "j" - "k"
n12 = "a" - "b" - "c" - "d" - "e" - "f" - "g" - "h" - "i" - "j" - "k" - "l"
n13 = "a" - "b" - "c" - "d" - "e" - "f" - "g" - "h" - "i" - "j" - "k" - "l" - "m"
n14 = "a" - "b" - "c" - "d" - "e" - "f" - "g" - "h" - "i" - "j" - "k" - "l" - "m" - "n"
n15 = "a" - "b" - "c" - "d" - "e" - "f" - "g" - "h" - "i" - "j" - "k" - "l" - "m" - "n" - "o"
n16 = "a" - "b" - "c" - "d" - "e" - "f" - "g" - "h" - "i" - "j" - "k" - "l" - "m" - "n" - "o" - "p"
n17 = "a" - "b" - "c" - "d" - "e" - "f" - "g" - "h" - "i" - "j" - "k" - "l" - "m" - "n" - "o" - "p" - "q"
n18 = "a" - "b" - "c" - "d" - "e" - "f" - "g" - "h" - "i" - "j" - "k" - "l" - "m" - "n" - "o" - "p" - "q" - "r"
o2 = "a" ~ "b"
o3 = "a" ~ "b" ^ "c"
o4 = "a" ~ "b" ^ "c" - "d"
o5 = "a" ~ "b" ^ "c" - "d" ~ "e"
o6 = "a" ~ "b" ^ "c" - "d" ~ "e" ^ "f"
o7 = "a" ~ "b" ^ "c" - "d" ~ "e" ^ "f" - "g"
o8 = "a" ~ "b" ^ "c" - "d" ~ "e" ^ "f" - "g" ~ "h"
o9 = "a" ~ "b" ^ "c" - "d" ~ "e" ^ "f" - "g" ~ "h" ^ "i"
o10 = "a" ~ "b" ^ "c" - "d" ~ "e" ^ "f" - "g" ~ "h" ^ "i" - "j"
o11 = "a" ~ "b" ^ "c" - "d" ~ "e" ^ "f" - "g" ~ "h" ^ "i" - "j" ~ "k"
o12 = "a" ~ "b" ^ "c" - "d" ~ "e" ^ "f" - "g" ~ "h" ^ "i" - "j" ~ "k" ^ "l"
o13 = "a" ~ "b" ^ "c" - "d" ~ "e" ^ "f" - "g" ~ "h" ^ "i" - "j" ~ "k" ^ "l" - "m"
o14 = "a" ~ "b" ^ "c" - "d" ~ "e" ^ "f" - "g" ~ "h" ^ "i" - "j" ~ "k" ^ "l" - "m" ~ "n"
o15 = "a" ~ "b" ^ "c" - "d" ~ "e" ^ "f" - "g" ~ "h" ^ "i" - "j" ~ "k" ^ "l" - "m" ~ "n" ^ "o"
o16 = "a" ~ "b" ^ "c" - "d" ~ "e" ^ "f" - "g" ~ "h" ^ "i" - "j" ~ "k" ^ "l" - "m" ~ "n" ^ "o" - "p"
o17 = "a" ~ "b" ^ "c" - "d" ~ "e" ^ "f" - "g" ~ "h" ^ "i" - "j" ~ "k" ^ "l" - "m" ~ "n" ^ "o" - "p" ~ "q"
o18 = "a" ~ "b" ^ "c" - "d" ~ "e" ^ "f" - "g" ~ "h" ^ "i" - "j" ~ "k" ^ "l" - "m" ~ "n" ^ "o" - "p" ~ "q" ^ "r"
"##]
    pub struct P;
}
static ALPHA: [&str; 18] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r"];
fn seq_of(n: usize, mixed: bool) -> &'static E {
    let mut v = Vec::new();
    for i in 0..n {
        let t = if !mixed || i == 0 { T::N } else { [T::O, T::M, T::N][(i - 1) % 3] };
        v.push((t, S(ALPHA[i])));
    }
    Box::leak(Box::new(Seq(Vec::leak(v))))
}
static GM: Gram = Gram { rules: &[], opt: Some(Opt(&SP)), man: Some(S(".")) };
fn numm(r: many::Rule) -> u32 { r as u32 }
macro_rules! every { ($k:expr, $mixed:expr, $s:expr; $($i:literal $n:ident),*) => { match $k { $($i => {
    let e: E = Inst(many::Rule::$n as u32, false, seq_of($i, $mixed));
    against_spec!(many::rules::$n<'static>, many::Rule, &GM, &e, $s, numm); })* _ => {} } } }
// Sequences of 2 to 18 parts.
entry!(h_len, {
    let n = 2 + choose(17);
    let s = window(&"abcdefghijklmnopqr"[..n], param(0), param(0));
    every!(n, false, s; 2 n2, 3 n3, 4 n4, 5 n5, 6 n6, 7 n7, 8 n8, 9 n9, 10 n10, 11 n11, 12 n12, 13 n13, 14 n14, 15 n15, 16 n16, 17 n17, 18 n18);
});
entry!(h_len_ops, {
    let n = 2 + choose(17);
    let full = "a b.cd e.fg h.ij k.lm n.op q.r";
    let cut = full.bytes().position(|b| b == ALPHA[n - 1].as_bytes()[0]).unwrap() + 1;
    let s = window(&full[..cut], param(0), param(1));
    every!(n, true, s; 2 o2, 3 o3, 4 o4, 5 o5, 6 o6, 7 o7, 8 o8, 9 o9, 10 o10, 11 o11, 12 o12, 13 o13, 14 o14, 15 o15, 16 o16, 17 o17, 18 o18);
});
// The library's own types, and their accessors.
strs! { A = "a"; B = "b"; C = "c"; Dot = "."; }
type Seq3 = Sequence3<Str<A>, Empty, Str<B>, t::Rep<Str<Dot>, Empty>, Option<Str<C>>, Str<Dot>>;
entry!(h_types, {
    let s = ascii_upto(param(0));
    let e = Seq(&[(T::N, S("a")), (T::O, S("b")), (T::M, Opt(&S("c")))]);
    static GT: Gram = Gram { rules: &[], opt: Some(Rep(&S("."), 0, INF, T::N)), man: Some(S(".")) };
    if let Some((p, n)) = node_at::<Seq3>(&GT, &e, s, 0) {
        let (_, _, c) = n.as_tuple();
        ck(c.is_some() == (s.as_bytes()[p - 1] == b'c'), "third field");
        let (_, _, c2) = n.clone().into_tuple();
        ck(c2.is_some() == c.is_some(), "tuple by value");
    }
});
// Grammars put together at random.
include!("../gen/trivia.rs");
entry!(h_many, { let k = any_trivia(); run_trivia(k, among_upto(param(0), b"ab _-.")); });
entry!(h_many_any, { let k = any_trivia(); run_trivia(k, text_upto(param(0), 3)); });
harnesses!(h_gen, h_gen_long, h_len, h_len_ops, h_types, h_many, h_many_any);
