//! The pair tree.
#![allow(non_upper_case_globals, unused)]
use h::*;
use hrt::spec::{*, E::*};
include!("../zoo.rs");

include!("../nest.rs");
struct Tree { s: &'static str }
impl Visit for Tree {
    fn go<R: RuleType, N: TypedNode<'static, R> + PairContainer<R> + Clone + PartialEq + std::fmt::Debug>(&mut self, g: &'static Gram, e: &'static E, num: fn(R) -> u32) {
        let mut m = M::new(g, self.s);
        let w = m.run(e, 0);
        let r = N::try_parse_partial(self.s);
        ck(r.is_ok() == w.is_some(), "verdict");
        let Ok((q, n)) = r else { cover(0); return };
        ck(Some(q.pos()) == w, "end");
        let mut v = Vec::new();
        n.for_self_or_for_each_child_pair(&mut |p| flatten(&p, num, 0, &mut v));
        ck(same(&v, &m.out), "the tree is not the list of rules that took part");
        if v.len() > 2 { cover(1) }
        trace(v.len() as u64);
        // The children by themselves: the same without the root.
        let mut c = Vec::new();
        n.for_each_child_pair(&mut |p| flatten(&p, num, 1, &mut c));
        let skip = v.len() - c.len();
        ck(skip <= 1 && same(&c, &v[skip..]), "the children differ from what is below the root");
        let list = n.vec_children_pairs();
        let mut d = Vec::new();
        for p in &list { flatten(p, num, 1, &mut d) }
        ck(same(&c, &d), "the list of children differs");
        // A clone is the same tree.
        let k = n.clone();
        let mut d = Vec::new();
        k.for_each_child_pair(&mut |p| flatten(&p, num, 1, &mut d));
        ck(k == n && same(&c, &d), "a copy of the tree differs");
    }
}
entry!(h_nest, { let k = nest::any_rule(); let s = among_upto(param(0), b"ab() ._!?x"); nest::visit(k, &mut Tree { s }) });
entry!(h_nest_any, { let k = nest::any_rule(); let s = ascii_upto(param(0)); nest::visit(k, &mut Tree { s }) });
entry!(h_calls, { let k = calls::any_rule(); let s = ascii_upto(param(0)); calls::visit(k, &mut Tree { s }) });
entry!(h_odd, { let k = odd::any_rule(); let s = ascii_upto(param(0)); odd::visit(k, &mut Tree { s }) });

fn dec(n: usize, o: &mut String) {
    if n >= 10 { dec(n / 10, o) }
    o.push((b'0' + (n % 10) as u8) as char);
}
fn show(t: &Pair<nest::Rule>, o: &mut String) {
    for (i, n) in nest::NAMES.iter().enumerate() { if i == index(t.rule) { o.push_str(n) } }
    o.push('(');
    dec(t.start, o);
    o.push_str(", ");
    dec(t.end, o);
    o.push_str(", [");
    for (i, c) in t.children.iter().enumerate() {
        if i > 0 { o.push_str(", ") }
        show(c, o);
    }
    o.push_str("])");
}
fn index(r: nest::Rule) -> usize {
    for i in 0..nest::G.rules.len() { if nest::G.rules[i].0 == r as u32 { return i } }
    fail("rule")
}
fn alike<A: Copy, B: Copy>(a: &Pair<A>, b: &Pair<B>, f: &dyn Fn(A, B) -> bool) -> bool {
    if !f(a.rule, b.rule) || a.start != b.start || a.end != b.end || a.children.len() != b.children.len() { return false }
    for i in 0..a.children.len() { if !alike(&a.children[i], &b.children[i], f) { return false } }
    true
}
entry!(h_show, {
    let s = among_upto(param(0), b"ab()!?");
    let t = match choose(3) {
        0 => nest::rules::deep::try_parse_partial(s).ok().map(|x| PairTree::<nest::Rule>::as_pair_tree(&x.1)),
        1 => nest::rules::repn::try_parse_partial(s).ok().map(|x| PairTree::<nest::Rule>::as_pair_tree(&x.1)),
        _ => nest::rules::back::try_parse_partial(s).ok().map(|x| PairTree::<nest::Rule>::as_pair_tree(&x.1)),
    };
    let Some(t) = t else { cover(0); return };
    let mut o = String::new();
    show(&t, &mut o);
    ck(o == t.to_string(), "the printed tree");
    let c = t.convert(&|r| (r as u32, 7u8));
    ck(alike(&t, &c, &|x0, y0| y0 == (x0 as u32, 7)), "converting changes the tree");
    cover(1);
    trace(o.len() as u64);
});
// Grammars put together at random.
include!("../gen/mix.rs");
entry!(h_many, { let k = any_mix(); let s = among_upto(param(0), b"abc._ "); visit_mix(k, &mut Tree { s }) });
include!("../gen/null.rs");
entry!(h_null, { let k = any_null(); let s = among_upto(param(0), b"abc._ "); visit_null(k, &mut Tree { s }) });
// The parts of a result by themselves: each lists its own rules, and together they list those of the whole.
mod parts {
    use pest3::Parser;
    #[derive(Parser)]
    #[grammar_inline = r##"
x = "x"
y = x - "b"?
both(p) = p - "," - p
hush(p) = _{ p }
r = pest::stack::push(y) - (x | y | "c") - y{..2} - &(y) - !"z" - y? - pest::stack::push(pest::stack::push(x | "d") - "e")? - (both(x) | hush(y))* - pest::any?
"##]
    pub struct P;
}
fn part<N: PairContainer<parts::Rule>>(n: &N, all: &mut Vec<Node>) {
    let num = |q: parts::Rule| match q { parts::Rule::r => 0, parts::Rule::x => 1, parts::Rule::y => 2, _ => 3 };
    let (mut a, mut b) = (Vec::new(), Vec::new());
    n.for_each_child_pair(&mut |p| flatten(&p, num, 0, &mut a));
    for p in n.vec_children_pairs() { flatten(&p, num, 0, &mut b) }
    ck(same(&a, &b), "the list of the children of a part differs from the children");
    n.for_self_or_for_each_child_pair(&mut |p| flatten(&p, num, 0, all));
}
entry!(h_parts, {
    let s = among_upto(param(0), b"xbcde,z");
    let Ok((_, n)) = parts::rules::r::try_parse_partial(s) else { cover(0); return };
    let c = &n.content;
    let mut all = Vec::new();
    part(&c.field_0, &mut all);
    ck(all.len() >= 2, "what was pushed is not among the parts");
    part(&c.field_1, &mut all);
    part(&c.field_2, &mut all);
    part(&c.field_3, &mut Vec::new());
    part(&c.field_4, &mut all);
    part(&c.field_5, &mut all);
    part(&c.field_6, &mut all);
    part(&c.field_7, &mut all);
    part(&c.field_8, &mut all);
    let mut whole = Vec::new();
    n.for_each_child_pair(&mut |p| flatten(&p, |q: parts::Rule| match q { parts::Rule::r => 0, parts::Rule::x => 1, parts::Rule::y => 2, _ => 3 }, 0, &mut whole));
    ck(same(&whole, &all), "the parts together list other rules than the whole");
    part(&n, &mut Vec::new());
    trace(all.len() as u64);
    if all.len() > 4 { cover(1) }
});
harnesses!(h_parts, h_null, h_nest, h_nest_any, h_calls, h_odd, h_show, h_many);
