//! Whole-input parsing.
#![allow(non_upper_case_globals, unused)]
use h::*;
use hrt::spec::{*, E::*};
include!("../zoo.rs");

struct Whole { s: &'static str }
impl Visit for Whole {
    fn go<R: RuleType, N: TypedNode<'static, R> + PairContainer<R> + Clone + PartialEq + std::fmt::Debug>(&mut self, g: &'static Gram, e: &'static E, num: fn(R) -> u32) {
        let s = self.s;
        let p = Position::from_start(s);
        let mut m = M::new(g, s);
        let w = m.whole(e, num(R::EOI));
        let mut m2 = M::new(g, s);
        let pre = m2.run(e, 0);
        ck(w.is_some() == (pre == Some(s.len())), "reference");
        let (mut st, mut t) = (Stack::new(), Tracker::<R>::new(p));
        let full = N::try_parse_with(p, &mut st, &mut t);
        let (mut st1, mut t1) = (Stack::new(), Tracker::<R>::new(p));
        let part = N::try_parse_with_partial(p, &mut st1, &mut t1);
        ck(full.is_some() == w.is_some(), "whole-input parse: accepted differs from match up to the end");
        ck(part.as_ref().map(|x| x.0.pos()) == pre, "prefix parse depends on the rest of the input");
        let (mut st2, mut t2) = (Stack::new(), Tracker::<R>::new(p));
        ck(N::check_with(p, &mut st2, &mut t2) == w.is_some(), "whole-input check: accepted differs from match up to the end");
        ck(N::try_parse_with(p, &mut Stack::new(), &mut Tracker::<R>::new(p)).is_some() == w.is_some(), "second run");
        if let (Some(f), Some((_, q))) = (&full, &part) { cover(0); ck(f == q, "whole-input parse and prefix parse give different trees") }
        if let (None, Some(_)) = (&full, &part) { cover(1) }
        if full.is_none() {
            let (q, map) = t.finish();
            ck(q.pos() == m.far, "place of the failure report");
            let mut said = false;
            let mut other = false;
            for (_, (pos, _, _)) in &map { for r in pos { if *r == R::EOI { said = true } else { other = true } } }
            let mut want = false;
            for a in &m.att { if a.kind == 0 && a.rule == num(R::EOI) { want = true } }
            ck(said == want, "end of input is expected exactly where the match ended and nothing got further");
            let _ = other;
            if said { cover(2) }
            let (q2, map2) = t2.finish();
            ck(q2.pos() == q.pos() && map2.len() == map.len(), "check reports another place");
            trace(q.pos() as u64);
        } else { trace(999) }
    }
}
entry!(h_calls, { let k = calls::any_rule(); let s = ascii_upto(param(0)); calls::visit(k, &mut Whole { s }) });
entry!(h_odd, { let k = odd::any_rule(); let s = ascii_upto(param(0)); odd::visit(k, &mut Whole { s }) });
// A prefix parse is the same whatever follows, for grammars that do not look further.
suite! { mod plain = r##"
~ = " "?
^ = ","
num  = '0'..'9'{1..2}
word = "ab" | "a"
list = num - ("," - num){..1}
kv   = word ~ ":" ~ num
"##; opt = Some(Opt(&S(" "))); man = Some(S(","));
    num = Rep(&R('0', '9'), 1, 2, T::N);
    word = Alt(&[S("ab"), S("a")]);
    list = Seq(&[(T::N, x::num), (T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, x::num)]), 0, 1, T::N))]);
    kv = Seq(&[(T::N, x::word), (T::O, S(":")), (T::O, x::num)]);
}
struct Prefix { s: &'static str, cut: usize }
impl Visit for Prefix {
    fn go<R: RuleType, N: TypedNode<'static, R> + PairContainer<R> + Clone + PartialEq + std::fmt::Debug>(&mut self, _: &'static Gram, _: &'static E, _: fn(R) -> u32) {
        // Whatever matches the whole of a text also matches it as a prefix of a longer one or goes on further.
        let short = &self.s[..self.cut];
        let a = N::try_parse(short).is_ok();
        let b = N::check_partial(self.s).ok().map(|x| x.pos());
        cover(a as u32);
        if a { ck(b.is_some_and(|x| x >= self.cut), "a longer input ends the match earlier") }
        ck(N::check(short).is_ok() == a, "check");
        trace(a as u64);
    }
}
entry!(h_prefix, {
    let k = plain::any_rule();
    let s = ascii_upto(param(0));
    let cut = choose(s.len() + 1);
    plain::visit(k, &mut Prefix { s, cut });
});
// Grammars put together at random.
include!("../gen/mix.rs");
entry!(h_many, { let k = any_mix(); let s = among_upto(param(0), b"abc._ "); visit_mix(k, &mut Whole { s }) });
// Parts that can match nothing.
include!("../gen/null.rs");
entry!(h_null, { let k = any_null(); let s = among_upto(param(0), b"abc._ "); visit_null(k, &mut Whole { s }) });
harnesses!(h_null, h_calls, h_odd, h_prefix, h_many);
