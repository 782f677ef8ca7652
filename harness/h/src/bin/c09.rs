//! Checking and parsing agree.
#![allow(non_upper_case_globals, unused)]
use h::*;
use hrt::spec::{*, E::*};
use pest3_core::typed::TypedParser;
include!("../zoo.rs");

/// The report as plain data: place, and per group the two lists and the printed stack errors.
type Lists = (Option<u32>, Vec<u32>, Vec<u32>, Vec<String>);
fn report<R: RuleType>(t: Tracker<'static, R>, num: fn(R) -> u32) -> (usize, Vec<Lists>) {
    let (p, m) = t.finish();
    let mut v = Vec::new();
    for (k, (a, b, c)) in m {
        v.push((k.map(num), a.into_iter().map(num).collect(), b.into_iter().map(num).collect(), c.iter().map(|x| x.to_string()).collect()));
    }
    (p.pos(), v)
}
struct Agree { s: &'static str, at: usize }
impl Visit for Agree {
    fn go<R: RuleType, N: TypedNode<'static, R> + PairContainer<R> + Clone + PartialEq + std::fmt::Debug>(&mut self, _: &'static Gram, _: &'static E, num: fn(R) -> u32) {
        let Some(p) = Position::new(self.s, self.at) else { fail("position") };
        let (mut s1, mut s2) = (Stack::new(), Stack::new());
        let (mut t1, mut t2) = (Tracker::<R>::new(p), Tracker::<R>::new(p));
        let full = flip();
        let (a, b, full_a, full_b);
        if full {
            full_a = N::try_parse_with(p, &mut s1, &mut t1).is_some();
            full_b = N::check_with(p, &mut s2, &mut t2);
            ck(full_a == full_b, "whole input: checking and parsing give different verdicts");
            a = full_a; b = full_b;
            trace(a as u64);
        } else {
            let x = N::try_parse_with_partial(p, &mut s1, &mut t1);
            let y = N::check_with_partial(p, &mut s2, &mut t2);
            let (x, y) = (x.map(|x| x.0.pos()), y.map(|x| x.pos()));
            ck(x == y, "checking and parsing end at different places");
            ck(s1.len() == s2.len() || x.is_none(), "checking and parsing leave different stacks");
            a = x.is_some(); b = y.is_some();
            trace(x.map_or(999, |x| x as u64));
        }
        cover(a as u32);
        ck(a == b, "verdict");
        let (r1, r2) = (report(t1, num), report(t2, num));
        ck(r1 == r2, "checking and parsing give different failure reports");
        trace(r1.0 as u64);
    }
}
entry!(h_calls, {
    let k = calls::any_rule();
    let s = ascii_upto(param(0));
    calls::visit(k, &mut Agree { s, at: 0 });
});
entry!(h_odd, {
    let k = odd::any_rule();
    let s = ascii_upto(param(0));
    odd::visit(k, &mut Agree { s, at: 0 });
});
entry!(h_few, {
    // longer inputs over few letters, from a later place
    let z = flip();
    let s = if z { among_upto(param(0), b"a1+( ") } else { among_upto(param(0), b"ab# \n") };
    let at = choose(s.len().min(2) + 1);
    if z { let k = calls::any_rule(); calls::visit(k, &mut Agree { s, at }) } else { let k = odd::any_rule(); odd::visit(k, &mut Agree { s, at }) }
});
// The entry points that build errors: same verdict, same tree or end, equal errors.
struct Entry { s: &'static str }
struct P;
impl<R: RuleType> TypedParser<R> for P {}
impl Visit for Entry {
    fn go<R: RuleType, N: TypedNode<'static, R> + PairContainer<R> + Clone + PartialEq + std::fmt::Debug>(&mut self, _: &'static Gram, _: &'static E, _: fn(R) -> u32) {
        let s = self.s;
        match (N::try_parse(s), N::check(s), <P as TypedParser<R>>::try_parse::<N>(s)) {
            (Ok(a), Ok(()), Ok(c)) => { cover(0); ck(a == c, "the parser's entry point gives another tree") }
            (Err(a), Err(b), Err(c)) => { cover(1); ck(a == b, "parse and check give different errors"); ck(a == c, "parser and node give different errors") }
            _ => fail("parse and check give different verdicts"),
        }
        match (N::try_parse_partial(s), N::check_partial(s), <P as TypedParser<R>>::try_parse_partial::<N>(s)) {
            (Ok(a), Ok(b), Ok(c)) => { cover(2); ck(a.0.pos() == b.pos() && a == c, "prefix parse and check end at different places") }
            (Err(a), Err(b), Err(c)) => { cover(3); ck(a == b, "prefix parse and check give different errors"); ck(a == c, "prefix: parser and node give different errors") }
            _ => fail("prefix parse and check give different verdicts"),
        }
        let p = Position::from_start(s);
        let (mut st, mut t) = (Stack::new(), Tracker::<R>::new(p));
        let a = <P as TypedParser<R>>::try_parse_with::<N>(p, &mut st, &mut t).is_some();
        let (mut st, mut t) = (Stack::new(), Tracker::<R>::new(p));
        ck(a == N::check_with(p, &mut st, &mut t), "whole input, own stack");
        let (mut st, mut t) = (Stack::new(), Tracker::<R>::new(p));
        let b = <P as TypedParser<R>>::try_parse_with_partial::<N>(p, &mut st, &mut t).map(|x| x.0.pos());
        let (mut st, mut t) = (Stack::new(), Tracker::<R>::new(p));
        ck(b == N::check_with_partial(p, &mut st, &mut t).map(|x| x.pos()), "prefix, own stack");
    }
}
entry!(h_entry, {
    let z = flip();
    let s = if z { among_upto(param(0), b"a1") } else { among_upto(param(0), b"ab#\n") };
    if z { let k = calls::any_rule(); calls::visit(k, &mut Entry { s }) } else { let k = odd::any_rule(); odd::visit(k, &mut Entry { s }) }
});
// Every kind of node by itself, on any text, from any place and with any texts on the stack.
mod nodes {
use h::*;
use super::report;
use pest3_core::typed::template::*;
use pest3_core::typed::template::drop as drop_;
strs! { Ab = "ab"; E1 = "é"; Nu = ""; K = "k!"; }
type Nl = newline;
fn pair<N: TypedNode<'static, Q> + PartialEq>(p: Position<'static>, init: &[(usize, usize)], s: &'static str) {
    let (mut s1, mut s2) = (Stack::new(), Stack::new());
    for (a, z) in init {
        let Some(sp) = Span::new(s, *a, *z) else { fail("span") };
        s1.push(sp);
        s2.push(sp);
    }
    let (mut t1, mut t2) = (Tracker::new(p), Tracker::new(p));
    let a = N::try_parse_with_partial(p, &mut s1, &mut t1).map(|x| x.0.pos());
    let b = N::check_with_partial(p, &mut s2, &mut t2).map(|x| x.pos());
    ck(a == b, "checking and parsing end at different places");
    if a.is_some() {
        ck(s1.len() == s2.len(), "checking and parsing leave different stacks");
        for i in 0..s1.len() { ck(s1[i..i + 1][0] == s2[i..i + 1][0], "checking and parsing leave different stacks") }
    }
    ck(report(t1, |q| q as u32) == report(t2, |q| q as u32), "checking and parsing give different failure reports");
    cover(a.is_some() as u32);
    trace(a.map_or(999, |x| x as u64));
}
entry!(h_nodes, {
    let (s, at) = text_at(param(0), 4);
    let Some(p) = Position::new(s, at) else { fail("position") };
    macro_rules! each { ($($t:ty),* $(,)?) => {{
        let n = [$(stringify!($t)),*].len();
        let k = choose(n);
        let mut i = 0;
        $( if i == k { return pair::<$t>(p, &[], s) } i += 1; )*
        let _ = i;
    }} }
    each!(Str<Ab>, Str<E1>, Str<Nu>, Insens<'static, Ab>, Insens<'static, K>, Insens<'static, E1>, SkipChar<'static, 1>, SkipChar<'static, 2>, CharRange<'b', 'ß'>,
        Char<'é'>, Char<'x'>, any, NONE, Empty, soi, eoi, Nl, ascii_digit, ascii_nonzero_digit, ascii_bin_digit, ascii_oct_digit, ascii_hex_digit,
        ascii_alpha_lower, ascii_alpha_upper, ascii_alpha, ascii_alphanumeric, ascii, Option<Str<Ab>>, Positive<any>, Negative<any>, Negative<Negative<Nl>>,
        Rep<Nl, Empty>, RepMinMax<any, Str<Ab>, 1, 2>, RepMin<Nl, Option<Char<'x'>>, 2>, push<Nl>, push<Option<any>>);
});
entry!(h_stack, {
    let (s, at) = text_at(param(0), 4);
    let Some(p) = Position::new(s, at) else { fail("position") };
    let n = choose(param(1) + 1);
    let init = slices(s, n);
    macro_rules! each { ($($t:ty),* $(,)?) => {{
        let n = [$(stringify!($t)),*].len();
        let k = choose(n);
        let mut i = 0;
        $( if i == k { return pair::<$t>(p, &init, s) } i += 1; )*
        let _ = i;
    }} }
    each!(peek<'static>, pop<'static>, peek_all<'static>, pop_all<'static>, drop_, PeekSlice2<0, 1>, PeekSlice2<{ -2 }, { -1 }>, PeekSlice2<1, 0>, PeekSlice1<1>, PeekSlice1<{ -1 }>,
        push<any>, push<peek<'static>>, push<pop<'static>>, Option<pop<'static>>, Positive<pop<'static>>, Negative<pop<'static>>, Rep<drop_, Str<Ab>>, RepMinMax<pop<'static>, Empty, 1, 3>,
        Option<push<drop_>>, Negative<drop_>);
});
}
use nodes::{h_nodes, h_stack};
// Grammars put together at random.
include!("../gen/mix.rs");
entry!(h_many, { let k = any_mix(); let s = among_upto(param(0), b"abc._ "); visit_mix(k, &mut Agree { s, at: 0 }) });
// Far inside a text.
entry!(h_far, {
    let n = [255, 256, 1000][choose(3)];
    let mut s = String::new();
    for _ in 0..n / 5 { s.push_str("abc_\n") }
    for _ in 0..n % 5 { s.push('a') }
    s.push_str(among_upto(param(0), b"abc._ "));
    let s: &'static str = s.leak();
    let k = any_mix();
    visit_mix(k, &mut Agree { s, at: n })
});
// Parts that can match nothing.
include!("../gen/null.rs");
entry!(h_null, { let k = any_null(); let s = among_upto(param(0), b"abc._ "); visit_null(k, &mut Agree { s, at: 0 }) });
// Attempts given up after attempts.
include!("../snap.rs");
entry!(h_snap, { let k = snap::any_rule(); let s = among_upto(param(0), b"ab!c."); snap::visit(k, &mut Agree { s, at: 0 }) });
harnesses!(h_snap, h_null, h_calls, h_odd, h_few, h_entry, h_nodes, h_stack, h_many, h_far);
