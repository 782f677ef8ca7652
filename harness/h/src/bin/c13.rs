//! The failure report.
#![allow(non_upper_case_globals, unused)]
use h::*;
use hrt::spec::{*, E::*};
include!("../zoo.rs");
include!("../nest.rs");

include!("../rep.rs");
include!("../words.rs");
/// The tracker says what the reference says.
fn report<R: RuleType>(t: Tracker<'static, R>, m: &M, num: fn(R) -> u32, at: &'static str) {
    let (p, a) = t.finish();
    ck(p.pos() == m.far, "the reported place is not the furthest one tried");
    trace(p.pos() as u64);
    let mut n = 0;
    for (u, (pos, neg, special)) in &a {
        let u = u.map(num);
        let (mut np, mut nn, mut ns) = (0, 0, 0);
        for x in &m.att {
            if x.upper != u { continue }
            n += 1;
            match x.kind {
                0 => { np += 1; ck(pos.iter().any(|r| num(*r) == x.rule), "an expected rule is not reported") }
                1 => { nn += 1; ck(neg.iter().any(|r| num(*r) == x.rule), "an unexpected rule is not reported") }
                _ => { ns += 1; let w = words(x); ck(special.iter().any(|e| e.to_string() == w), "a stack error is not reported") }
            }
        }
        let distinct = |v: &Vec<R>| { let mut k = 0; for i in 0..v.len() { if !v[..i].contains(&v[i]) { k += 1 } } k };
        ck(distinct(pos) == np, "a rule is reported as expected which was not");
        ck(distinct(neg) == nn, "a rule is reported as unexpected which was not");
        for e in special { let e = e.to_string(); ck(m.att.iter().any(|x| x.upper == u && x.kind >= 2 && words(x) == e), "a stack error is reported which did not happen") }
        ck(ns == 0 || !special.is_empty(), at);
        if np > 0 { cover(1) }
        if nn > 0 { cover(2) }
        if ns > 0 { cover(3) }
    }
    ck(n == m.att.len(), "the report lacks a group of rules");
}
struct Rep0 { s: &'static str, at: usize }
impl Visit for Rep0 {
    fn go<R: RuleType, N: TypedNode<'static, R> + PairContainer<R> + Clone + PartialEq + std::fmt::Debug>(&mut self, g: &'static Gram, e: &'static E, num: fn(R) -> u32) {
        let Some(p) = Position::new(self.s, self.at) else { fail("position") };
        let mode = choose(4);
        let mut m = M::new(g, self.s);
        m.far = self.at;
        let (mut st, mut t) = (Stack::new(), Tracker::new(p));
        let (ok, want) = match mode {
            0 => (N::try_parse_with_partial(p, &mut st, &mut t).is_some(), m.run(e, self.at)),
            1 => (N::check_with_partial(p, &mut st, &mut t).is_some(), m.run(e, self.at)),
            2 => (N::try_parse_with(p, &mut st, &mut t).is_some(), m.whole_at(e, self.at, num(R::EOI))),
            _ => (N::check_with(p, &mut st, &mut t), m.whole_at(e, self.at, num(R::EOI))),
        };
        ck(ok == want.is_some(), "verdict");
        // Also what is tracked of a successful parse counts: the same tracker can serve further attempts.
        report(t, &m, num, "special");
        if !ok { cover(0) }
    }
}
entry!(h_rep, { let k = rep::any_rule(); let s = among_upto(param(0), b"abc .[,]("); let at = choose(s.len() + 1).min(param(1)); rep::visit(k, &mut Rep0 { s, at }) });
entry!(h_rep_any, { let k = rep::any_rule(); let s = ascii_upto(param(0)); rep::visit(k, &mut Rep0 { s, at: 0 }) });
entry!(h_nest, { let k = nest::any_rule(); let s = among_upto(param(0), b"ab() ._!?x"); nest::visit(k, &mut Rep0 { s, at: 0 }) });
entry!(h_calls, { let k = calls::any_rule(); let s = ascii_upto(param(0)); calls::visit(k, &mut Rep0 { s, at: 0 }) });
entry!(h_odd, { let k = odd::any_rule(); let s = ascii_upto(param(0)); odd::visit(k, &mut Rep0 { s, at: 0 }) });

/// Every nesting of recorded rules, predicates and stack errors, by the tracker's own interface.
struct Ev { left: usize, s: &'static str, open: Vec<(u32, usize, bool)>, positive: bool, far: usize, att: Vec<Att>, reps: usize }
impl Ev {
    fn pos(&self, p: usize) -> Position<'static> { Position::new(self.s, p).unwrap() }
    fn note(&mut self, p: usize, kind: u8, rule: u32, a: isize, z: Option<isize>) {
        if p < self.far { return }
        if p > self.far { self.far = p; self.att.clear(); self.reps = 0 }
        if kind == 9 { return }
        if kind == 4 { self.reps += 1; return }
        let upper = self.open.iter().rev().find(|x| x.1 != p).map(|x| x.0);
        let x = Att { upper, kind, rule, a, z };
        if !self.att.contains(&x) { self.att.push(x) }
    }
    fn go(&mut self, t: &mut Tracker<'static, Q>) {
        while self.left > 0 {
            self.left -= 1;
            match choose(7) {
                0 => return,
                k @ (1 | 2) => {
                    let p = choose(self.s.len() + 1);
                    let r = [Q::A, Q::B, Q::C][choose(3)];
                    let ok = flip();
                    let pos = self.pos(p);
                    if let Some(x) = self.open.last_mut() { x.2 = true }
                    self.open.push((r as u32, p, false));
                    if k == 1 {
                        t.record_option_during(pos, |t| { self.go(t); if ok { Some((pos, ())) } else { None } }, r);
                    } else {
                        t.record_empty_during::<()>(pos, |t| { self.go(t); if ok { Some(pos) } else { None } }, r);
                    }
                    let (_, _, called) = self.open.pop().unwrap();
                    if !called {
                        if ok != self.positive { let k = !self.positive as u8; self.note(p, k, r as u32, 0, None) } else { self.note(p, 9, 0, 0, None) }
                    }
                }
                3 => { let o = self.positive; self.positive = true; t.positive_during(|t| self.go(t)); self.positive = o }
                4 => { let o = self.positive; self.positive = false; t.negative_during(|t| self.go(t)); self.positive = o }
                5 => { let p = choose(self.s.len() + 1); t.empty_stack(self.pos(p)); self.note(p, 2, 0, 0, None) }
                _ => { let p = choose(self.s.len() + 1); let z = if flip() { Some(-1) } else { None }; t.out_of_bound(self.pos(p), 12, z); self.note(p, 3, 0, 12, z) }
            }
        }
    }
}
fn q(r: Q) -> u32 { r as u32 }
entry!(h_events, {
    let s = "ab";
    let mut t = Tracker::new(Position::from_start(s));
    let mut e = Ev { left: param(0), s, open: vec![], positive: true, far: 0, att: vec![], reps: 0 };
    e.go(&mut t);
    let mut m = M::new(&NOG, s);
    m.far = e.far;
    m.att = e.att;
    report(t, &m, q, "special");
    cover(0);
});
// Grammars put together at random.
include!("../gen/mix.rs");
entry!(h_many, { let k = any_mix(); let s = among_upto(param(0), b"abc._ "); visit_mix(k, &mut Rep0 { s, at: 0 }) });
// Far inside a text.
entry!(h_far, {
    let n = [255, 256, 1000][choose(3)];
    let mut s = String::new();
    for _ in 0..n / 5 { s.push_str("abc_\n") }
    for _ in 0..n % 5 { s.push('a') }
    s.push_str(among_upto(param(0), b"abc._ "));
    let s: &'static str = s.leak();
    let k = any_mix();
    visit_mix(k, &mut Rep0 { s, at: n })
});
// Parts that can match nothing.
include!("../gen/null.rs");
entry!(h_null, { let k = any_null(); let s = among_upto(param(0), b"abc._ "); visit_null(k, &mut Rep0 { s, at: 0 }) });
// Many rules and groups at one place.
include!("../gen/crowd.rs");
entry!(h_crowd, {
    let s = among_upto(param(0), b"abyzx");
    if flip() { let k = crowd0_last(); crowd0::visit(k, &mut Rep0 { s, at: 0 }) } else { let k = crowd1_last(); crowd1::visit(k, &mut Rep0 { s, at: 0 }) }
});
harnesses!(h_crowd, h_null, h_rep, h_rep_any, h_nest, h_calls, h_odd, h_events, h_many, h_far);
