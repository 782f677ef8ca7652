//! Errors as messages.
use h::*;
use hrt::spec::{*, E::*};
include!("../zoo.rs");
include!("../rep.rs");
include!("../words.rs");
use pest3_core::error::{Error, ErrorVariant, InputLocation, LineColLocation};

suite! { mod lines = r##"
~ = pest::newline*
nl    = pest::newline
a     = "a"
u     = "\u{e9}" | "\u{1f496}"
row   = (a | u)+
rows  = row - (nl - row)* - end
end   = pest::eoi
any2  = !nl - pest::any - !a - pest::any
block = row ~ "." ~ row
not   = a - nl - !(u - nl) - pest::any - a
"##; opt = Some(Rep(&Nl, 0, INF, T::N)); man = None;
    nl = Nl;
    a = S("a");
    u = Alt(&[S("\u{e9}"), S("\u{1f496}")]);
    row = Rep(&Alt(&[x::a, x::u]), 1, INF, T::N);
    rows = Seq(&[(T::N, x::row), (T::N, Rep(&Seq(&[(T::N, x::nl), (T::N, x::row)]), 0, INF, T::N)), (T::N, x::end)]);
    end = Eoi;
    any2 = Seq(&[(T::N, Neg(&x::nl)), (T::N, Any), (T::N, Neg(&x::a)), (T::N, Any)]);
    block = Seq(&[(T::N, x::row), (T::O, S(".")), (T::O, x::row)]);
    not = Seq(&[(T::N, x::a), (T::N, x::nl), (T::N, Neg(&Seq(&[(T::N, x::u), (T::N, x::nl)]))), (T::N, Any), (T::N, x::a)]);
}

/// The error says where, and what.
fn error<R: RuleType>(e: Box<Error<R>>, s: &'static str, m: &M, eoi: u32, g: &Gram, names: &'static [&'static str]) {
    let name = |id: u32| -> &'static str {
        if id == eoi { return "EOI" }
        for i in 0..names.len() { if g.rules[i].0 == id { return names[i] } }
        fail("rule number")
    };
    let (l, c) = line_col_of(s.as_bytes(), m.far);
    let LineColLocation::Pos(lc) = e.line_col else { fail("the error is not at a position") };
    ck(lc == (l, c), "the error is at another line and column");
    ck(match e.location { InputLocation::Pos(p) => p == m.far, _ => false }, "the error is at another place");
    trace((l * 100 + c) as u64);
    let ErrorVariant::CustomError { message } = &e.variant else { fail("kind of error") };
    let (start, _) = line_around(s.as_bytes(), m.far);
    let head = &s[start..m.far];
    ck(message.len() >= head.len() + 4 && message.as_bytes()[..head.len()] == *head.as_bytes(), "the message does not repeat the line up to the place");
    let rest = &message[head.len()..];
    ck(rest.starts_with("^---"), "the message does not mark the place");
    // Each line of the rest, with the numbers' width in front.
    let mut lines: Vec<&str> = Vec::new();
    let mut from = None;
    let b = rest.as_bytes();
    for i in 0..b.len() { if b[i] == b'\n' { if let Some(f) = from { lines.push(&rest[f..i]) } from = Some(i + 1) } }
    if let Some(f) = from { lines.push(&rest[f..]) }
    let mut margin = String::new();
    let mut k = l;
    while k > 0 { margin.push(' '); k /= 10 }
    margin.push_str("   ");
    let mut seen = vec![0; lines.len()];
    let mut uppers: Vec<Option<u32>> = Vec::new();
    for x in &m.att { if !uppers.contains(&x.upper) { uppers.push(x.upper) } }
    for u in uppers {
        let ids = |kind: u8| { let mut v: Vec<u32> = Vec::new(); for x in &m.att { if x.upper == u && x.kind == kind { v.push(x.rule) } } v.sort(); v };
        let list = |v: Vec<u32>| { let mut o = String::from("["); for (i, x) in v.iter().enumerate() { if i > 0 { o.push_str(", ") } o.push_str(name(*x)) } o.push(']'); o };
        let (pos, neg) = (ids(0), ids(1));
        let mut w = margin.clone();
        match (pos.is_empty(), neg.is_empty()) {
            (true, true) => w.push_str("Unknown error (no rule tracked)"),
            (false, true) => { w.push_str("Expected "); w.push_str(&list(pos)) }
            (true, false) => { w.push_str("Unexpected "); w.push_str(&list(neg)); cover(1) }
            _ => { w.push_str("Unexpected "); w.push_str(&list(neg)); w.push_str(", expected "); w.push_str(&list(pos)); cover(2) }
        }
        if let Some(u) = u { w.push_str(", by "); w.push_str(name(u)) }
        w.push('.');
        let mut found = 0;
        for (i, x) in lines.iter().enumerate() { if *x == w { found += 1; seen[i] = 1 } }
        ck(found == 1, "the rules that were tried there are not listed, once");
        for x in &m.att {
            if x.upper != u || x.kind < 2 { continue }
            let mut w = margin.clone();
            w.push_str(&words(x));
            if let Some(u) = u { w.push_str(" (By "); w.push_str(name(u)); w.push(')') }
            let mut found = 0;
            for (i, x) in lines.iter().enumerate() { if *x == w { found += 1; seen[i] = 1 } }
            ck(found >= 1, "a stack error is not listed");
            cover(3);
        }
    }
    ck(seen.iter().all(|x| *x == 1), "the message lists something that was not tried there");
    // Printing.
    let p = e.to_string();
    let mut w = String::new();
    let mut k = l;
    while k > 0 { w.push(' '); k /= 10 }
    w.push_str("--> ");
    dec(l as isize, &mut w);
    w.push(':');
    dec(c as isize, &mut w);
    w.push('\n');
    ck(p.len() > w.len() && p.as_bytes()[..w.len()] == *w.as_bytes(), "the printed error does not begin with its place");
    let n = message.len();
    ck(p.len() > n && p.as_bytes()[p.len() - n..] == *message.as_bytes(), "the printed error does not end with its message");
    cover(0);
}
struct Er { s: &'static str, names: &'static [&'static str] }
impl Visit for Er {
    fn go<R: RuleType, N: TypedNode<'static, R> + PairContainer<R> + Clone + PartialEq + std::fmt::Debug>(&mut self, g: &'static Gram, e: &'static E, num: fn(R) -> u32) {
        let mut m = M::new(g, self.s);
        let (err, want) = match choose(4) {
            0 => (N::try_parse_partial(self.s).err(), m.run(e, 0)),
            1 => (N::check_partial(self.s).err(), m.run(e, 0)),
            2 => (N::try_parse(self.s).err(), m.whole(e, num(R::EOI))),
            _ => (N::check(self.s).err(), m.whole(e, num(R::EOI))),
        };
        ck(err.is_some() == want.is_none(), "verdict");
        let Some(err) = err else { return };
        error(err, self.s, &m, num(R::EOI), g, self.names);
    }
}
entry!(h_rep, { let k = rep::any_rule(); let s = among_upto(param(0), b"abc .[,]("); rep::visit(k, &mut Er { s, names: rep::NAMES }) });
entry!(h_calls, { let k = calls::any_rule(); let s = ascii_upto(param(0)); calls::visit(k, &mut Er { s, names: calls::NAMES }) });
entry!(h_odd, { let k = odd::any_rule(); let s = ascii_upto(param(0)); odd::visit(k, &mut Er { s, names: odd::NAMES }) });
entry!(h_lines, {
    let k = lines::any_rule();
    let n = choose(param(0) + 1);
    let mut v = String::new();
    for _ in 0..n { v.push_str(["a", "\n", "\r", "\u{e9}", "\u{1f496}", ".", "\r\n"][choose(7)]) }
    lines::visit(k, &mut Er { s: v.leak(), names: lines::NAMES })
});
entry!(h_lines_any, { let k = lines::any_rule(); let s = text_upto(param(0), 4); lines::visit(k, &mut Er { s, names: lines::NAMES }) });

/// A tracker that failed somewhere, alone.
fn q(r: Q) -> u32 { r as u32 }
static QG: Gram = Gram { rules: &[(1, false, Never), (2, false, Never), (3, false, Never), (4, false, Never)], opt: None, man: None };
fn anywhere(s: &'static str, far: bool) {
    let at = choose(s.len() + 1);
    let up = if far { choose(s.len() + 1) } else { at * choose(2) };
    let (Some(p), Some(u)) = (Position::new(s, at), Position::new(s, up)) else { return };
    let mut t = Tracker::<Q>::new(Position::from_start(s));
    let mut m = M::new(&QG, s);
    m.far = at;
    let upper = if up != at { Some(Q::C as u32) } else { None };
    let what = choose(4);
    t.record_option_during(u, |t| {
        let (a, b) = ([Q::A, Q::B, Q::D][choose(3)], [Q::A, Q::B, Q::D][choose(3)]);
        let mut note = |kind: u8, rule: u32, a, z| { let x = Att { upper, kind, rule, a, z }; if !m.att.contains(&x) { m.att.push(x) } };
        match what {
            0 => { t.empty_stack(p); t.record_option_during(p, |_| None::<(Position<'static>, ())>, a); note(2, 0, 0, None); note(0, a as u32, 0, None) }
            1 => for x in [a, b] { t.record_option_during(p, |_| None::<(Position<'static>, ())>, x); note(0, x as u32, 0, None) },
            2 => {
                t.record_option_during(p, |_| None::<(Position<'static>, ())>, a);
                note(0, a as u32, 0, None);
                t.negative_during(|t| t.record_option_during(p, |_| Some((p, ())), b));
                note(1, b as u32, 0, None);
            }
            _ => { t.out_of_bound(p, -3, Some(2)); t.record_option_during(p, |_| None::<(Position<'static>, ())>, a); note(3, 0, -3, Some(2)); note(0, a as u32, 0, None) }
        }
        Some((p, ()))
    }, Q::C);
    error(t.collect(), s, &m, q(Q::EOI), &QG, &["A", "B", "C", "D"]);
}
entry!(h_where, { anywhere(text_upto(param(0), 4), true) });
entry!(h_where_breaks, { anywhere(among_upto(param(0), b"a\r\n\t"), true) });
entry!(h_where_long, { anywhere(window("1\n2\n3\n4\r\n\n6\n7\r8\n9\n\n11\u{e9}\n", 0, param(0)), false) });
// Many rules and groups at one place.
include!("../gen/crowd.rs");
entry!(h_crowd, {
    let s = among_upto(param(0), b"aby\n");
    if flip() { let k = crowd0_last(); crowd0::visit(k, &mut Er { s, names: crowd0::NAMES }) } else { let k = crowd1_last(); crowd1::visit(k, &mut Er { s, names: crowd1::NAMES }) }
});
harnesses!(h_crowd, h_rep, h_calls, h_odd, h_lines, h_lines_any, h_where, h_where_breaks, h_where_long);
