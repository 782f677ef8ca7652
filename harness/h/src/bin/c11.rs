//! Spans in results.
#![allow(non_upper_case_globals, unused)]
use h::*;
use hrt::spec::{*, E::*};
include!("../zoo.rs");

suite! { mod wide = r##"
~ = "·"*
^ = pest::newline
ch     = pest::any
greek  = 'α'..'ω'
emoji  = '🌀'..'🫿'
latin  = 'a'..'é'
wide   = (greek | emoji | latin)+
quot   = pest::stack::push("«" | i"é" | pest::any) - ch* - pest::stack::pop
lines  = ch ^ ch? ~ greek
pairs  = (ch - greek?)~*
both   = &wide - wide - !ch | ch{2..3}
tail   = (!latin - pest::any)* - latin
twice  = pest::stack::push(greek) - pest::stack::push(ch) - pest::stack::peek[0..1] - pest::stack::peek_all?
low    = '\0'..'\u{7f}' - ch
"##; opt = Some(Rep(&S("·"), 0, INF, T::N)); man = Some(Nl);
    ch = Any;
    greek = R('α', 'ω');
    emoji = R('🌀', '🫿');
    latin = R('a', 'é');
    wide = Rep(&Alt(&[x::greek, x::emoji, x::latin]), 1, INF, T::N);
    quot = Seq(&[(T::N, Push(&Alt(&[S("«"), I("é"), Any]))), (T::N, Rep(&x::ch, 0, INF, T::N)), (T::N, Pop)]);
    lines = Seq(&[(T::N, x::ch), (T::M, Opt(&x::ch)), (T::O, x::greek)]);
    pairs = Rep(&Seq(&[(T::N, x::ch), (T::N, Opt(&x::greek))]), 0, INF, T::O);
    both = Alt(&[Seq(&[(T::N, Pos(&x::wide)), (T::N, x::wide), (T::N, Neg(&x::ch))]), Rep(&x::ch, 2, 3, T::N)]);
    tail = Seq(&[(T::N, Rep(&Seq(&[(T::N, Neg(&x::latin)), (T::N, Any)]), 0, INF, T::N)), (T::N, x::latin)]);
    twice = Seq(&[(T::N, Push(&x::greek)), (T::N, Push(&x::ch)), (T::N, Slice(0, Some(1))), (T::N, Opt(&PeekAll))]);
    low = Seq(&[(T::N, R('\0', '\u{7f}')), (T::N, x::ch)]);
}
fn valid<R: Copy>(s: &str, t: &Pair<R>, lo: usize, hi: usize) -> usize {
    ck(t.start <= t.end && t.end <= s.len(), "a span leaves the input or is reversed");
    ck(boundary(s, t.start) && boundary(s, t.end), "a span splits a character");
    ck(lo <= t.start && t.end <= hi, "a child leaves its parent or overlaps the one before");
    let mut n = t.start;
    for c in &t.children { n = valid(s, c, n, t.end) }
    t.end
}
struct Spans { s: &'static str, at: usize }
impl Visit for Spans {
    fn go<R: RuleType, N: TypedNode<'static, R> + PairContainer<R> + Clone + PartialEq + std::fmt::Debug>(&mut self, g: &'static Gram, e: &'static E, num: fn(R) -> u32) {
        let s = self.s;
        let Some(p) = Position::new(s, self.at) else { fail("a boundary is not accepted as a position") };
        let mut m = M::new(g, s);
        let w = m.run(e, self.at);
        let (mut st, mut t) = (Stack::new(), Tracker::<R>::new(p));
        let r = N::try_parse_with_partial(p, &mut st, &mut t);
        ck(r.as_ref().map(|x| x.0.pos()) == w, "the parse ends elsewhere than the grammar says");
        if let Some((q, n)) = &r {
            cover(0);
            ck(boundary(s, q.pos()), "the end splits a character");
            let mut v = Vec::new();
            let mut roots = 0;
            let mut last = self.at;
            n.for_self_or_for_each_child_pair(&mut |pair| {
                last = valid(s, &pair, last, q.pos());
                if roots == 0 { ck(pair.start == self.at, "the root does not start where parsing started") }
                roots += 1;
                flatten(&pair, num, 0, &mut v);
            });
            ck(roots <= 1, "one root");
            if roots == 1 { cover(1); ck(last == q.pos(), "the root does not end at the reported end") }
            ck(same(&v, &m.out), "a span is not what its rule matched");
            // Everything still on the stack is a slice of the input, too.
            for i in 0..st.len() {
                let x = &st[i..i + 1][0];
                ck(x.start() <= x.end() && boundary(s, x.start()) && boundary(s, x.end()), "a pushed span");
                ck(i < m.stack.len() && (x.start(), x.end()) == m.stack[i], "a pushed span is not what was matched");
            }
        }
        let (far, _) = t.finish();
        ck(far.pos() >= self.at && boundary(s, far.pos()), "the failure position is outside the input");
        ck(far.pos() == m.far, "the failure position");
        trace(w.map_or(999, |x| x as u64));
        trace(far.pos() as u64);
    }
}
entry!(h_calls, { let k = calls::any_rule(); let s = ascii_upto(param(0)); let at = choose(s.len().min(1) + 1); calls::visit(k, &mut Spans { s, at }) });
entry!(h_odd, { let k = odd::any_rule(); let s = ascii_upto(param(0)); let at = choose(s.len().min(1) + 1); odd::visit(k, &mut Spans { s, at }) });
entry!(h_wide, { let k = wide::any_rule(); let (s, at) = text_at(param(0), 4); wide::visit(k, &mut Spans { s, at }) });
// The span fields of the nodes themselves.
macro_rules! node_span {
    ($m:ident, $r:ident, $s:expr, $at:expr) => {{
        let Some(p) = Position::new($s, $at) else { fail("position") };
        let (mut st, mut t) = (Stack::new(), Tracker::new(p));
        if let Some((q, n)) = <$m::rules::$r<'static> as TypedNode<'static, $m::Rule>>::try_parse_with_partial(p, &mut st, &mut t) {
            cover(0);
            ck(n.span.start() == $at && n.span.end() == q.pos(), "the node's span is not what was consumed");
            ck(std::ptr::eq(n.span.get_input(), $s), "the span's text is not the input");
            ck(n.span.as_str() == &$s[$at..q.pos()], "the span's text");
            ck(PairTree::<$m::Rule>::get_span(&n) == ($at, q.pos()), "the pair's span");
            ck(PairTree::<$m::Rule>::as_pair_tree(&n).start == $at, "the pair's start");
            trace(q.pos() as u64);
        } else { cover(1) }
    }};
}
entry!(h_fields, {
    let (s, at) = text_at(param(0), 4);
    match choose(8) {
        0 => node_span!(wide, wide, s, at),
        1 => node_span!(wide, quot, s, at),
        2 => node_span!(wide, lines, s, at),
        3 => node_span!(wide, pairs, s, at),
        4 => node_span!(wide, both, s, at),
        5 => node_span!(wide, tail, s, at),
        6 => node_span!(wide, twice, s, at),
        _ => node_span!(wide, ch, s, at),
    }
});
// Spans that built-in nodes keep.
mod nodes {
use h::*;
use pest3_core::typed::template::*;
strs! { Ex = "é"; }
fn at<N: TypedNode<'static, Q>>(s: &'static str, a: usize, init: &[(usize, usize)]) -> Option<(usize, N)> {
    let Some(p) = Position::new(s, a) else { fail("position") };
    let (mut st, mut t) = (Stack::new(), Tracker::new(p));
    for (x, y) in init { let Some(sp) = Span::new(s, *x, *y) else { fail("span") }; st.push(sp) }
    N::try_parse_with_partial(p, &mut st, &mut t).map(|x| (x.0.pos(), x.1))
}
fn chk(s: &'static str, a: usize, q: usize, sp: Span<'static>) {
    cover(0);
    ck(sp.start() == a && sp.end() == q, "the span kept is not the slice matched");
    ck(std::ptr::eq(sp.get_input(), s), "the span kept is of another text");
    trace(q as u64);
}
entry!(h_nodes, {
    let (s, a) = text_at(param(0), param(2));
    let n = choose(param(1) + 1);
    let init = slices(s, n);
    match choose(9) {
        0 => if let Some((q, n)) = at::<peek<'static>>(s, a, &init) { chk(s, a, q, n.span) },
        1 => if let Some((q, n)) = at::<pop<'static>>(s, a, &init) { chk(s, a, q, n.span) },
        2 => if let Some((q, n)) = at::<peek_all<'static>>(s, a, &init) { chk(s, a, q, n.span) },
        3 => if let Some((q, n)) = at::<pop_all<'static>>(s, a, &init) { chk(s, a, q, n.span) },
        4 => if let Some((q, n)) = at::<SkipChar<'static, 2>>(s, a, &init) { chk(s, a, q, n.span) },
        5 => if let Some((q, n)) = at::<Insens<'static, Ex>>(s, a, &init) { ck(n.content == &s[a..q], "the content kept is not the slice matched"); cover(1) },
        6 => if let Some((q, n)) = at::<any>(s, a, &init) { ck(Some((n.content as u32, q - a)) == char_at(s.as_bytes(), a), "the character kept is not the one matched") },
        7 => if let Some((q, n)) = at::<CharRange<'a', 'é'>>(s, a, &init) { ck(Some((n.content as u32, q - a)) == char_at(s.as_bytes(), a), "the character kept is not the one matched") },
        _ => if let Some((q, _)) = at::<push<any>>(s, a, &init) { ck(boundary(s, q), "push") },
    }
});
}
use nodes::h_nodes;
// Grammars put together at random.
include!("../gen/mix.rs");
entry!(h_many, { let k = any_mix(); let s = among_upto(param(0), b"abc._ "); visit_mix(k, &mut Spans { s, at: 0 }) });
// Far inside a text.
entry!(h_far, {
    let n = [255, 256, 1000][choose(3)];
    let mut s = String::new();
    for _ in 0..n / 5 { s.push_str("abc_\n") }
    for _ in 0..n % 5 { s.push('a') }
    s.push_str(among_upto(param(0), b"abc._ "));
    let s: &'static str = s.leak();
    let k = any_mix();
    visit_mix(k, &mut Spans { s, at: n })
});
include!("../gen/null.rs");
entry!(h_null, { let k = any_null(); let s = among_upto(param(0), b"abc._ "); visit_null(k, &mut Spans { s, at: 0 }) });
harnesses!(h_null, h_calls, h_odd, h_wide, h_fields, h_nodes, h_many, h_far);
