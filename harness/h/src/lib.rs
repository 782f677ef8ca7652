//! Shared parts of the harness programs.
pub mod reader;
use hrt::spec::Node;
pub use hrt::{self, *};
pub use pest3_core::token::Pair;
pub use pest3_core::typed::{PairContainer, PairTree, RuleType, Tracker, TypedNode};
pub use pest3_core::{Position, Span, Stack};

/// Rule names of the hand-assembled parsers.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[allow(clippy::upper_case_acronyms)]
pub enum Q { EOI, A, B, C, D }
impl RuleType for Q { const EOI: Self = Q::EOI; }

#[macro_export]
macro_rules! strs {
    ($($n:ident = $s:expr;)*) => { $(
        #[derive(Clone, Debug, PartialEq, Eq, Hash)]
        pub struct $n;
        impl pest3_core::typed::wrapper::String for $n { const CONTENT: &'static str = $s; }
    )* };
}

/// Pair tree in preorder.
pub fn flatten<R: Copy>(t: &Pair<R>, num: fn(R) -> u32, depth: usize, out: &mut Vec<Node>) {
    out.push(Node { rule: num(t.rule), start: t.start, end: t.end, depth });
    for c in &t.children { flatten(c, num, depth + 1, out) }
}

/// Same pairs, up to the depth in which the numbering starts.
pub fn same(a: &[Node], b: &[Node]) -> bool {
    if a.len() != b.len() { return false }
    for i in 0..a.len() { if a[i] != b[i] { return false } }
    true
}

/// Check one generated rule against the reference: end position, pairs, and the agreement of all entry points.
/// `$rule` is the type, `$e` the reference expression, `$num` numbers the rules.
#[macro_export]
macro_rules! against_spec {
    ($rule:ty, $R:ty, $g:expr, $e:expr, $s:expr, $num:expr) => {{
        let s: &'static str = $s;
        let mut m = $crate::hrt::spec::M::new($g, s);
        let want = m.run($e, 0);
        let got = <$rule as $crate::TypedNode<'static, $R>>::try_parse_partial(s);
        match (&want, &got) {
            (None, Err(_)) => $crate::cover(0),
            (Some(w), Ok((p, t))) => {
                if *w > 0 { $crate::cover(1) }
                $crate::ck(p.pos() == *w, "the parser ends elsewhere than the grammar says");
                $crate::trace(*w as u64);
                let mut v = Vec::new();
                $crate::PairContainer::<$R>::for_self_or_for_each_child_pair(t, &mut |p| $crate::flatten(&p, $num, 0, &mut v));
                $crate::ck($crate::same(&v, &m.out), "the pairs differ from the ones the grammar defines");
            }
            (None, Ok(_)) => $crate::hrt::fail("accepted, but the grammar does not match"),
            (Some(_), Err(_)) => $crate::hrt::fail("rejected, but the grammar matches"),
        }
        let c = <$rule as $crate::TypedNode<'static, $R>>::check_partial(s);
        match (&want, &c) {
            (None, Err(_)) => {}
            (Some(w), Ok(p)) => $crate::ck(p.pos() == *w, "checking ends elsewhere than the grammar says"),
            _ => $crate::hrt::fail("checking gives another verdict than the grammar"),
        }
        want
    }};
}
/// The same for a hand-assembled type: positions only.
#[macro_export]
macro_rules! node_spec {
    ($ty:ty, $g:expr, $e:expr, $s:expr) => {{
        let s: &'static str = $s;
        let mut m = $crate::hrt::spec::M::new($g, s);
        let want = m.run($e, 0);
        let got = <$ty as $crate::TypedNode<'static, $crate::Q>>::try_parse_partial(s).ok().map(|x| x.0.pos());
        let chk = <$ty as $crate::TypedNode<'static, $crate::Q>>::check_partial(s).ok().map(|x| x.pos());
        $crate::ck(got == want, "parsing disagrees with the expression");
        $crate::ck(chk == want, "checking disagrees with the expression");
        $crate::cover(want.is_some() as u32);
        $crate::trace(want.map_or(999, |x| x as u64));
        want
    }};
}

/// Parse and check from a given position.
pub fn run_at<N: TypedNode<'static, Q>>(p: Position<'static>) -> (Option<usize>, Option<usize>) {
    let mut st = Stack::new();
    let mut t = Tracker::new(p);
    let a = N::try_parse_with_partial(p, &mut st, &mut t).map(|x| x.0.pos());
    let b = N::check_with_partial(p, &mut st, &mut t).map(|x| x.pos());
    (a, b)
}

/// A node type against its expression, from every boundary of the text.
pub fn node_at<N: TypedNode<'static, Q>>(g: &hrt::spec::Gram, e: &hrt::spec::E, s: &'static str, at: usize) -> Option<(usize, N)> {
    let Some(p) = Position::new(s, at) else { fail("a boundary is not accepted as a position") };
    let mut m = hrt::spec::M::new(g, s);
    let w = m.run(e, at);
    let mut st = Stack::new();
    let mut t = Tracker::new(p);
    let a = N::try_parse_with_partial(p, &mut st, &mut t);
    let b = N::check_with_partial(p, &mut st, &mut t).map(|x| x.pos());
    ck(a.as_ref().map(|x| x.0.pos()) == w, "parsing disagrees with the expression");
    ck(b == w, "checking disagrees with the expression");
    cover(w.is_some() as u32);
    trace(w.map_or(999, |x| x as u64));
    a.map(|(p, n)| (p.pos(), n))
}
/// A text and a boundary in it.
pub fn text_at(n: usize, maxlen: usize) -> (&'static str, usize) {
    let s = text_upto(n, maxlen);
    let at = choose(s.len() + 1);
    assume(boundary(s, at));
    (s, at)
}
pub static NOG: hrt::spec::Gram = hrt::spec::Gram { rules: &[], opt: None, man: None };

/// A grammar together with its meaning: generated parser in `$m::rules`, reference in `$m::G`.
/// Rules: `name = expression;`, silent ones `name "_" = expression;`. `$m::x::name` is the reference to a rule.
#[macro_export]
macro_rules! suite {
    (mod $m:ident = $text:tt; opt = $o:expr; man = $ma:expr; $($n:ident $($sil:literal)? = $e:expr;)*) => {
        #[allow(non_upper_case_globals, non_camel_case_types, unused)]
        mod $m {
            use super::*;
            mod inner {
                use pest3::Parser;
                #[derive(Parser)]
                #[grammar_inline = $text]
                pub struct P;
            }
            pub use inner::{rules, Rule};
            pub enum Ix { $($n),* }
            pub mod x { $(pub const $n: $crate::hrt::spec::E = $crate::hrt::spec::E::Rule(super::Ix::$n as usize);)* }
            pub static G: $crate::hrt::spec::Gram = $crate::hrt::spec::Gram {
                rules: &[$((Rule::$n as u32, $crate::is_silent!($($sil)?), $e)),*], opt: $o, man: $ma };
            pub static NAMES: &[&str] = &[$(stringify!($n)),*];
            pub fn num(r: Rule) -> u32 { r as u32 }
            /// Rule number `k` against its meaning.
            pub fn run(k: usize, s: &'static str) -> Option<usize> {
                $(if k == Ix::$n as usize { return $crate::against_spec!(rules::$n<'static>, Rule, &G, &x::$n, s, num) })*
                None
            }
            pub fn visit<V: $crate::Visit>(k: usize, v: &mut V) {
                $(if k == Ix::$n as usize { static E: $crate::hrt::spec::E = x::$n; return v.go::<Rule, rules::$n<'static>>(&G, &E, num) })*
            }
            pub fn any_rule() -> usize { $crate::choose(NAMES.len()) }
        }
    };
}
#[macro_export]
macro_rules! is_silent { () => { false }; ($x:literal) => { true } }

/// The stack holds exactly these slices.
pub fn stack_is(st: &Stack<Span<'static>>, want: &[(usize, usize)]) -> bool {
    if st.len() != want.len() { return false }
    for i in 0..want.len() {
        let s = &st[i..i + 1][0];
        if s.start() != want[i].0 || s.end() != want[i].1 { return false }
    }
    true
}
/// `n` arbitrary slices of the text.
pub fn slices(s: &'static str, n: usize) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for _ in 0..n {
        let a = choose(s.len() + 1);
        assume(boundary(s, a));
        let z = a + choose(s.len() + 1 - a);
        assume(boundary(s, z));
        v.push((a, z));
    }
    v
}
/// One node, started from an arbitrary stack: verdict, end, the stack after success, and the stack after undoing it all.
pub fn stack_node<N: TypedNode<'static, Q>>(g: &hrt::spec::Gram, e: &hrt::spec::E, s: &'static str, at: usize, init: &[(usize, usize)]) -> Option<usize> {
    let mut m = hrt::spec::M::new(g, s);
    m.stack = init.to_vec();
    let w = m.run(e, at);
    let Some(p) = Position::new(s, at) else { fail("a boundary is not accepted as a position") };
    for checking in [false, true] {
        let mut st = Stack::new();
        // Half of the texts come from before an enclosing attempt, half from inside it.
        let half = init.len() / 2;
        for (i, (a, z)) in init.iter().enumerate() {
            if i == half { st.snapshot() }
            let Some(sp) = Span::new(s, *a, *z) else { fail("a slice is not accepted as a span") };
            st.push(sp);
        }
        if half == init.len() { st.snapshot() }
        st.snapshot();
        let mut t = Tracker::new(p);
        let r = if checking { N::check_with_partial(p, &mut st, &mut t).map(|x| x.pos()) } else { N::try_parse_with_partial(p, &mut st, &mut t).map(|x| x.0.pos()) };
        ck(r == w, "verdict or end differs from the expression's");
        if w.is_some() { ck(stack_is(&st, &m.stack), "the stack after the match is not the one the expression leaves") }
        if w.is_some() && checking {
            st.clear_snapshot();
            ck(stack_is(&st, &m.stack), "the stack changes when the attempt is kept");
        } else {
            st.restore();
            ck(stack_is(&st, init), "undoing the attempt does not give the stack from before");
        }
        st.restore();
        ck(stack_is(&st, &init[..half]), "undoing the enclosing attempt does not give the stack from before");
    }
    cover(w.is_some() as u32);
    trace(w.map_or(999, |x| x as u64));
    w
}

/// Something to do with each rule of a suite.
pub trait Visit {
    fn go<R: RuleType, N: TypedNode<'static, R> + PairContainer<R> + Clone + PartialEq + std::fmt::Debug>(&mut self, g: &'static hrt::spec::Gram, e: &'static hrt::spec::E, num: fn(R) -> u32);
}

/// Line and column of an offset, counted from 1: the line breaks before it, and the characters since the last one.
pub fn line_col_of(b: &[u8], at: usize) -> (usize, usize) {
    let (mut l, mut c, mut i) = (1, 1, 0);
    while i < at {
        if b[i] == b'\n' { l += 1; c = 1 } else if b[i] < 0x80 || b[i] >= 0xc0 { c += 1 }
        i += 1;
    }
    (l, c)
}
/// The line around an offset, its line break included.
pub fn line_around(b: &[u8], at: usize) -> (usize, usize) {
    let mut a = at;
    while a > 0 && b[a - 1] != b'\n' { a -= 1 }
    let mut z = at;
    while z < b.len() { z += 1; if b[z - 1] == b'\n' { break } }
    (a, z)
}
