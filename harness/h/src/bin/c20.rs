//! Accessors: each returns the matched parts of the rule's own body.
#![allow(non_upper_case_globals)]
use h::*;
use hrt::spec::{*, E::*};
trait Sp { fn sp(&self) -> (usize, usize); }
macro_rules! sp { ($($m:ident: $($t:ident)*;)*) => { $($(impl Sp for $m::rules::$t<'static> { fn sp(&self) -> (usize, usize) { (self.span.start(), self.span.end()) } })*)* } }
sp!(acc: a b c in1 par rec loop1 loop2 _quiet; par: a b;);
/// What an accessor gave, written out.
trait Put { const OPTION: bool = false; fn put(&self, v: &mut Vec<Part>); }
impl<T: Sp> Put for &T { fn put(&self, v: &mut Vec<Part>) { let (a, z) = (*self).sp(); v.push(Part::At(a, z)) } }
impl<T: Put> Put for Option<T> { const OPTION: bool = true; fn put(&self, v: &mut Vec<Part>) { ck(!T::OPTION, "an option of an option"); match self { Some(x) => x.put(v), None => v.push(Part::Absent) } } }
impl<T: Put> Put for Vec<T> { fn put(&self, v: &mut Vec<Part>) { v.push(Part::Open); for x in self { x.put(v) } v.push(Part::Close) } }
macro_rules! tup { ($($n:ident)*) => { impl<$($n: Put),*> Put for ($($n,)*) {
    #[allow(non_snake_case)]
    fn put(&self, v: &mut Vec<Part>) { let ($($n,)*) = self; $($n.put(v);)* }
} } }
tup!(T1 T2);
tup!(T1 T2 T3);
tup!(T1 T2 T3 T4);
tup!(T1 T2 T3 T4 T5);
tup!(T1 T2 T3 T4 T5 T6);
tup!(T1 T2 T3 T4 T5 T6 T7);
tup!(T1 T2 T3 T4 T5 T6 T7 T8);
tup!(T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15);
tup!(T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16);
fn given(x: &impl Put, want: &[Part]) {
    let mut v = Vec::new();
    x.put(&mut v);
    ck(v.len() == want.len(), "an accessor gives more or fewer parts than were matched");
    for i in 0..v.len() { ck(v[i] == want[i], "an accessor gives another part than the one matched there") }
    trace(v.len() as u64);
}
include!("../acc.rs");
fn rule(names: &[&str]) -> usize {
    let name = names[choose(names.len())];
    let mut i = 0;
    while i < acc::NAMES.len() { if acc::NAMES[i] == name { return i } i += 1 }
    fail("no such rule")
}
entry!(h_plain, { let k = rule(&["plain", "twice", "op", "opseq", "opop", "in1", "in2", "hush", "tri", "six", "left", "look", "lookalt", "neg", "lookrep"]); accessors(k, among_upto(param(0), b"abBc")); });
entry!(h_choice, { let k = rule(&["alts", "altseq", "altop", "many", "wide", "loop2", "mixed", "opdeep"]); accessors(k, among_upto(param(0), b"abc.,3(")); });
entry!(h_repeat, { let k = rule(&["rep", "reps", "once", "bound", "exact", "least", "most", "deep", "oprep", "repop", "repalt"]); accessors(k, among_upto(param(0), b"abc,.")); });
entry!(h_rec, { let k = rule(&["par", "rec", "loop1", "loop2", "lists", "spaced", "repsp", "st"]); accessors(k, among_upto(param(0), b"abc()., _")); });
// Many mentions, and many levels.
entry!(h_large, {
    let k = rule(&["crowd", "nested", "lots"]);
    let mut s = String::new();
    if k == acc::Ix::crowd as usize { for i in 0..[0, 13, 14][choose(3)] { s.push('a'); if i % 3 == 1 { s.push('B') } } }
    s.push_str(among_upto(param(0), if k == acc::Ix::lots as usize { b"a,.123" } else { b"abc" }));
    accessors(k, s.leak());
});
mod par {
    use pest3::Parser;
    #[derive(Parser)]
    #[grammar_inline = r##"
a = "a"
b = "b" | "B"
two(t) = t - "," - t
opt(t, u) = (t | u) - t?
many(t, b) = t - (b - t)* - &b?
wrap(t) = "(" - wrap(t)? - t - ")"
g1 = two(a) - two(b)?
g2 = opt(a, b)
g3 = many(b, a)
g4 = wrap(a)
three(x, y, z) = x - (y | z)* - z?
g5 = three(a, b, a)
five(p, q, r, s, t) = p - q? - (r - s)? - t*
g6 = five(a, b, a, b, a)
pass(m) = m - three(m, b, m) - two(m)?
g7 = pass(a)
bi = pest::any - pest::ascii_digit? - pest::any
lines = (a - pest::newline)* - pest::eoi
hold = pest::stack::push(a) - pest::stack::peek? - pest::stack::drop
"##]
    pub struct P;
}
const PA: E = S("a");
const PB: E = Alt(&[S("b"), S("B")]);
static RA: E = Inst(par::Rule::a as u32, false, &PA);
static RB: E = Inst(par::Rule::b as u32, false, &PB);
static W: E = Seq(&[(T::N, S("(")), (T::N, Opt(&Inst(9, false, &W))), (T::N, Inst(par::Rule::a as u32, false, &PA)), (T::N, S(")"))]);
fn is(r: par::Rule) -> impl Fn(&E) -> bool { move |e: &E| match e { Inst(j, _, _) => *j == r as u32, _ => false } }
fn want(e: &'static E, s: &'static str, at: usize, r: par::Rule) -> Vec<Part> {
    let mut v = Vec::new();
    let mut m = M::new(&NOG, s);
    ck(m.parts(e, at, &is(r), &mut v).is_some(), "accepted, but the rule does not match");
    v
}
fn parse<N: TypedNode<'static, par::Rule>>(s: &'static str) -> Option<N> { let r = N::try_parse_partial(s); cover(r.is_ok() as u32); r.ok().map(|x| x.1) }
static TWO_A: E = Seq(&[(T::N, Inst(par::Rule::a as u32, false, &PA)), (T::N, S(",")), (T::N, Inst(par::Rule::a as u32, false, &PA))]);
static TWO_B: E = Seq(&[(T::N, Inst(par::Rule::b as u32, false, &PB)), (T::N, S(",")), (T::N, Inst(par::Rule::b as u32, false, &PB))]);
static OPT: E = Seq(&[(T::N, Alt(&[Inst(par::Rule::a as u32, false, &PA), Inst(par::Rule::b as u32, false, &PB)])), (T::N, Opt(&Inst(par::Rule::a as u32, false, &PA)))]);
static MANY: E = Seq(&[(T::N, Inst(par::Rule::b as u32, false, &PB)), (T::N, Rep(&Seq(&[(T::N, Inst(par::Rule::a as u32, false, &PA)), (T::N, Inst(par::Rule::b as u32, false, &PB))]), 0, INF, T::N)), (T::N, Pos(&Opt(&Inst(par::Rule::a as u32, false, &PA))))]);
static THREE: E = Seq(&[(T::N, Inst(1001, false, &RA)), (T::N, Rep(&Alt(&[Inst(1002, false, &RB), Inst(1003, false, &RA)]), 0, INF, T::N)), (T::N, Opt(&Inst(1003, false, &RA)))]);
static FIVE: E = Seq(&[(T::N, Inst(1001, false, &RA)), (T::N, Opt(&Inst(1002, false, &RB))), (T::N, Opt(&Seq(&[(T::N, Inst(1003, false, &RA)), (T::N, Inst(1004, false, &RB))]))), (T::N, Rep(&Inst(1005, false, &RA), 0, INF, T::N))]);
fn want_param(e: &'static E, s: &'static str, at: usize, k: u32) -> Vec<Part> {
    let mut v = Vec::new();
    let mut m = M::new(&NOG, s);
    ck(m.parts(e, at, &|e: &E| match e { Inst(j, _, _) => *j == 1000 + k, _ => false }, &mut v).is_some(), "accepted, but the rule does not match");
    v
}
fn three(o: &par::rules::three<par::rules::a<'static>, par::rules::b<'static>, par::rules::a<'static>>, s: &'static str) {
    let at = o.span.start();
    given(&o.x(), &want_param(&THREE, s, at, 1));
    given(&o.y(), &want_param(&THREE, s, at, 2));
    given(&o.z(), &want_param(&THREE, s, at, 3));
}
entry!(h_many_params, {
    let s = among_upto(param(0), b"abB,");
    use par::rules;
    match choose(3) {
        0 => if let Some(t) = parse::<rules::g5>(s) { three(t.three(), s) }
        1 => if let Some(t) = parse::<rules::g6>(s) {
            let o = t.five();
            given(&o.p(), &want_param(&FIVE, s, 0, 1));
            given(&o.q(), &want_param(&FIVE, s, 0, 2));
            given(&o.r(), &want_param(&FIVE, s, 0, 3));
            given(&o.s(), &want_param(&FIVE, s, 0, 4));
            given(&o.t(), &want_param(&FIVE, s, 0, 5));
        }
        _ => if let Some(t) = parse::<rules::g7>(s) {
            let o = t.pass();
            given(&o.m(), &[Part::At(0, 1)]);
            three(o.three(), s);
            let end = o.three().span.end();
            match o.two() { Some(x) => { ck(x.span.start() == end, "a call starts elsewhere"); given(&x.t(), &want(&TWO_A, s, end, par::Rule::a)) } None => ck(end == t.span.end(), "a call is missing") }
        }
    }
});
// Accessors named after parameters.
entry!(h_params, {
    let s = among_upto(param(0), b"abB,()");
    use par::{rules, Rule};
    match choose(4) {
        0 => if let Some(t) = parse::<rules::g1>(s) {
            let (x, y) = t.two();
            given(&x.t(), &want(&TWO_A, s, 0, Rule::a));
            if let Some(y) = y { given(&y.t(), &want(&TWO_B, s, x.span.end(), Rule::b)) }
            ck(y.is_some() == (t.span.end() > x.span.end()), "the second call is missing, or given without being there");
        }
        1 => if let Some(t) = parse::<rules::g2>(s) { let o = t.opt(); given(&o.t(), &want(&OPT, s, 0, Rule::a)); given(&o.u(), &want(&OPT, s, 0, Rule::b)) }
        2 => if let Some(t) = parse::<rules::g3>(s) { let o = t.many(); given(&o.t(), &want(&MANY, s, 0, Rule::b)); given(&o.b(), &want(&MANY, s, 0, Rule::a)) }
        _ => if let Some(t) = parse::<rules::g4>(s) {
            let mut o = t.wrap();
            let mut at = 0;
            loop {
                given(&o.t(), &want(&W, s, at, Rule::a));
                ck(o.span.start() == at, "a nested part starts elsewhere");
                at += 1;
                match o.wrap() { Some(x) => o = x, None => break }
            }
            ck(s.as_bytes()[at] == b'a', "the innermost part is not the last one");
        }
    }
});
// Accessors of built-in rules.
entry!(h_builtin, {
    let s = among_upto(param(0), b"ab1\r\n\xC3\xA9");
    assume(core::str::from_utf8(s.as_bytes()).is_ok());
    use par::rules;
    match choose(3) {
        0 => if let Some(t) = parse::<rules::bi>(s) {
            let (x, y) = t.any();
            let mut it = s.chars();
            ck(it.next() == Some(x.content), "the first character differs");
            let second = it.next();
            match t.ascii_digit() {
                Some(d) => ck(second == Some(d.content) && it.next() == Some(y.content), "the digit or the last character differs"),
                None => ck(second == Some(y.content), "the last character differs"),
            }
        }
        1 => if let Some(t) = parse::<rules::lines>(s) { ck(t.newline().len() == t.a().len() && t.span.end() == s.len(), "lines differ"); let _: &h::hrt::spec::Part = &Part::Open; let _ = t.eoi(); }
        _ => if let Some(t) = parse::<rules::hold>(s) {
            ck(t.push().content.span.end() == 1, "the pushed part differs");
            match t.peek() { Some(p) => ck(p.span.start() == 1 && p.span.end() == 2, "the peeked part differs"), None => ck(t.span.end() == 1, "a peeked part is missing") }
            let _ = t.drop();
        }
    }
});
// What the accessors' types are.
#[allow(unused)]
fn types<'s>(p: &'s acc::rules::plain<'static>, t: &'s acc::rules::twice<'static>, o: &'s acc::rules::op<'static>, r: &'s acc::rules::rep<'static>, l: &'s acc::rules::alts<'static>, d: &'s acc::rules::deep<'static>, q: &'s acc::rules::opop<'static>, z: &'s acc::rules::reps<'static>) {
    use acc::rules::*;
    let _: &'s a = p.a();
    let _: (&'s a, &'s a) = t.a();
    let _: (Option<&'s a>, Option<&'s a>) = o.a();
    let _: (&'s a, Vec<&'s a>) = r.a();
    let _: Option<&'s b> = l.b();
    let _: Vec<Vec<&'s a>> = d.a();
    let _: Option<&'s a> = q.a();
    let _: Vec<Option<&'s b>> = z.b();
}
macro_rules! accessors_of { ($m:ident, $r:ident: $($a:ident)*; $s:expr) => {{
    let mut m = M::new(&$m::G, $s);
    let Ok((_, t)) = <$m::rules::$r<'static> as TypedNode<'static, $m::Rule>>::try_parse_partial($s) else { cover(0); return };
    cover(1);
    $({
        let mut want = Vec::new();
        let is = |e: &E| match e { Rule(j) => *j == $m::Ix::$a as usize, _ => false };
        let end = m.parts(&$m::G.rules[$m::Ix::$r as usize].2, 0, &is, &mut want);
        ck(end == Some(t.span.end()), "the rule ends elsewhere than the grammar says");
        given(&t.$a(), &want);
        m = M::new(&$m::G, $s);
    })*
}} }
// Grammars put together at random.
include!("../gen/acc.rs");
entry!(h_many, { let k = any_acc(); parts_acc(k, among_upto(param(0), b"abc._ ")); });
include!("../gen/shape.rs");
entry!(h_shape, { let k = any_shape(); parts_shape(k, among_upto(param(0), b"ab.,")); });
harnesses!(h_large, h_shape, h_plain, h_choice, h_repeat, h_rec, h_params, h_many_params, h_builtin, h_many);
