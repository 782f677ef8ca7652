//! Stack operations.
#![allow(non_upper_case_globals, unused)]
use h::*;
use hrt::spec::{*, E::*};
use pest3_core::typed::template::{any, drop, peek, peek_all, pop, pop_all, push, Empty, Insens, PeekSlice1, PeekSlice2, Rep as RepT, Str};
use pest3_core::sequence::Sequence2;

strs! { Sa = "a"; Sab = "aB"; Sn = ""; }
// Every operation, from an arbitrary stack at an arbitrary position.
entry!(h_ops, {
    let s = ascii_upto(param(0));
    let at = choose(s.len() + 1);
    let i = slices(s, choose(param(1) + 1));
    match choose(10) {
        0 => { stack_node::<peek<'static>>(&NOG, &Peek, s, at, &i); }
        1 => { stack_node::<pop<'static>>(&NOG, &Pop, s, at, &i); }
        2 => { stack_node::<drop>(&NOG, &Drop, s, at, &i); }
        3 => { stack_node::<peek_all<'static>>(&NOG, &PeekAll, s, at, &i); }
        4 => { stack_node::<pop_all<'static>>(&NOG, &PopAll, s, at, &i); }
        5 => { stack_node::<push<any>>(&NOG, &Push(&Any), s, at, &i); }
        6 => { stack_node::<push<Insens<'static, Sab>>>(&NOG, &Push(&I("aB")), s, at, &i); }
        7 => { stack_node::<push<Str<Sn>>>(&NOG, &Push(&S("")), s, at, &i); }
        8 => { stack_node::<push<push<RepT<any, Empty>>>>(&NOG, &Push(&Push(&Rep(&Any, 0, INF, T::N))), s, at, &i); }
        _ => { stack_node::<push<Sequence2<push<Str<Sa>>, Empty, any, Empty>>>(&NOG, &Push(&Seq(&[(T::N, Push(&S("a"))), (T::N, Any)])), s, at, &i); }
    }
});
// Multi-byte texts.
entry!(h_ops_text, {
    let s = text_upto(param(0), 4);
    let at = choose(s.len() + 1);
    assume(boundary(s, at));
    let i = slices(s, choose(param(1) + 1));
    match choose(6) {
        0 => { stack_node::<peek<'static>>(&NOG, &Peek, s, at, &i); }
        1 => { stack_node::<pop<'static>>(&NOG, &Pop, s, at, &i); }
        2 => { stack_node::<peek_all<'static>>(&NOG, &PeekAll, s, at, &i); }
        3 => { stack_node::<pop_all<'static>>(&NOG, &PopAll, s, at, &i); }
        4 => { stack_node::<push<any>>(&NOG, &Push(&Any), s, at, &i); }
        _ => { stack_node::<PeekSlice2<-2, -1>>(&NOG, &Slice(-2, Some(-1)), s, at, &i); }
    }
});
macro_rules! sl { ($k:expr, $s:expr, $at:expr, $i:expr; $($n:literal ($a:literal)),*; $($m:literal ($b:literal, $c:literal)),*) => { match $k {
    $($n => { stack_node::<PeekSlice1<$a>>(&NOG, &Slice($a, None), $s, $at, $i); })*
    $($m => { stack_node::<PeekSlice2<$b, $c>>(&NOG, &Slice($b, Some($c)), $s, $at, $i); })*
    _ => {} } } }
const BIG: isize = isize::MAX;
const SMALL: isize = isize::MIN;
entry!(h_slices, {
    let s = ascii_upto(param(0));
    let at = if s.len() < 2 { 0 } else { choose(2) };
    let i = slices(s, choose(param(1) + 1));
    let k = choose(31);
    sl!(k, s, at, &i; 0 (0), 1 (1), 2 (2), 3 (3), 4 (-1), 5 (-2), 6 (-3);
        7 (0, 0), 8 (0, 1), 9 (0, 2), 10 (0, 3), 11 (1, 2), 12 (1, 1), 13 (2, 1), 14 (3, 0), 15 (2, 3), 16 (0, -1), 17 (1, -1), 18 (0, -2),
        19 (-1, 0), 20 (-1, 1), 21 (-2, -1), 22 (-1, -2), 23 (-3, 2), 24 (-2, 2), 25 (-1, 3), 26 (4, 4), 27 (-4, -4), 28 (1, -2), 29 (-3, -1), 30 (0, -3));
});
entry!(h_slices_edge, {
    let s = ascii_upto(2);
    let i = slices(s, choose(3));
    match choose(7) {
        0 => { stack_node::<PeekSlice1<BIG>>(&NOG, &Slice(BIG, None), s, 0, &i); }
        1 => { stack_node::<PeekSlice1<{ SMALL + 8 }>>(&NOG, &Slice(SMALL + 8, None), s, 0, &i); }
        2 => { stack_node::<PeekSlice2<0, BIG>>(&NOG, &Slice(0, Some(BIG)), s, 0, &i); }
        3 => { stack_node::<PeekSlice2<{ SMALL + 8 }, BIG>>(&NOG, &Slice(SMALL + 8, Some(BIG)), s, 0, &i); }
        4 => { stack_node::<PeekSlice2<BIG, 0>>(&NOG, &Slice(BIG, Some(0)), s, 0, &i); }
        5 => { stack_node::<PeekSlice2<0, 0>>(&NOG, &Slice(0, Some(0)), s, 0, &i); }
        _ => { stack_node::<PeekSlice2<0, { SMALL + 8 }>>(&NOG, &Slice(0, Some(SMALL + 8)), s, 0, &i); }
    }
});
// What the nodes record.
entry!(h_record, {
    let s = ascii_upto(param(0));
    let at = choose(s.len() + 1);
    let i = slices(s, choose(param(1) + 1));
    let Some(p) = Position::new(s, at) else { fail("position") };
    let mut st = Stack::new();
    for (a, z) in &i { st.push(Span::new(s, *a, *z).unwrap_or_else(|| fail("span"))) }
    let mut t = Tracker::<Q>::new(p);
    let same = |sp: &Span<'static>, q: usize| ck(&s[at..q] == sp.as_str(), "the recorded text is not the matched one");
    match choose(4) {
        0 => if let Some((q, n)) = peek::try_parse_with_partial(p, &mut st, &mut t) { same(&n.span, q.pos()); cover(0) },
        1 => if let Some((q, n)) = pop::try_parse_with_partial(p, &mut st, &mut t) { same(&n.span, q.pos()); cover(1) },
        2 => if let Some((q, n)) = peek_all::try_parse_with_partial(p, &mut st, &mut t) { same(&n.span, q.pos()); cover(2) },
        _ => if let Some((q, n)) = pop_all::try_parse_with_partial(p, &mut st, &mut t) { same(&n.span, q.pos()); cover(3) },
    }
});

suite! { mod g = r##"
~ = " "*
^ = "."
w      = 'a'..'z'
pp     = pest::stack::push(w) - pest::stack::peek
ppop   = pest::stack::push(w) - pest::stack::push(w) - pest::stack::pop - pest::stack::pop
all    = pest::stack::push(w) - pest::stack::push(w+) - pest::stack::peek_all
popa   = pest::stack::push(w) - pest::stack::push(w) - pest::stack::pop_all - pest::stack::pop?
dr     = pest::stack::push(w) - pest::stack::push(w) - pest::stack::drop - pest::stack::pop
none   = w? - pest::stack::pop
nonep  = pest::stack::peek
noned  = pest::stack::drop
emptya = w - pest::stack::peek_all - pest::stack::pop_all
nested = pest::stack::push(pest::stack::push(w) - ".") - pest::stack::pop - pest::stack::pop
nest2  = pest::stack::push(w ~ w) ~ pest::stack::pop
rule   = pest::stack::push(pp) - pest::stack::pop
reps   = (pest::stack::push(w) - ",")* - pest::stack::pop_all
repp   = pest::stack::push(w)+ - "." - pest::stack::pop+
s0     = pest::stack::push(w)* - "." - pest::stack::peek[..]
s1     = pest::stack::push(w)* - "." - pest::stack::peek[1..]
s2     = pest::stack::push(w)* - "." - pest::stack::peek[..1]
s3     = pest::stack::push(w)* - "." - pest::stack::peek[..-1]
s4     = pest::stack::push(w)* - "." - pest::stack::peek[-2..]
s5     = pest::stack::push(w)* - "." - pest::stack::peek[-2..-1]
s6     = pest::stack::push(w)* - "." - pest::stack::peek[1..2]
s7     = pest::stack::push(w)* - "." - pest::stack::peek[0..+1]
s8     = pest::stack::push(w)* - "." - pest::stack::peek[2..1]
s9     = pest::stack::push(w)* - "." - pest::stack::peek[-1..0]
"##; opt = Some(Rep(&S(" "), 0, INF, T::N)); man = Some(S("."));
    w = R('a', 'z');
    pp = Seq(&[(T::N, Push(&x::w)), (T::N, Peek)]);
    ppop = Seq(&[(T::N, Push(&x::w)), (T::N, Push(&x::w)), (T::N, Pop), (T::N, Pop)]);
    all = Seq(&[(T::N, Push(&x::w)), (T::N, Push(&Rep(&x::w, 1, INF, T::N))), (T::N, PeekAll)]);
    popa = Seq(&[(T::N, Push(&x::w)), (T::N, Push(&x::w)), (T::N, PopAll), (T::N, Opt(&Pop))]);
    dr = Seq(&[(T::N, Push(&x::w)), (T::N, Push(&x::w)), (T::N, Drop), (T::N, Pop)]);
    none = Seq(&[(T::N, Opt(&x::w)), (T::N, Pop)]);
    nonep = Peek;
    noned = Drop;
    emptya = Seq(&[(T::N, x::w), (T::N, PeekAll), (T::N, PopAll)]);
    nested = Seq(&[(T::N, Push(&Seq(&[(T::N, Push(&x::w)), (T::N, S("."))]))), (T::N, Pop), (T::N, Pop)]);
    nest2 = Seq(&[(T::N, Push(&Seq(&[(T::N, x::w), (T::O, x::w)]))), (T::O, Pop)]);
    rule = Seq(&[(T::N, Push(&x::pp)), (T::N, Pop)]);
    reps = Seq(&[(T::N, Rep(&Seq(&[(T::N, Push(&x::w)), (T::N, S(","))]), 0, INF, T::N)), (T::N, PopAll)]);
    repp = Seq(&[(T::N, Rep(&Push(&x::w), 1, INF, T::N)), (T::N, S(".")), (T::N, Rep(&Pop, 1, INF, T::N))]);
    s0 = Seq(&[(T::N, Rep(&Push(&x::w), 0, INF, T::N)), (T::N, S(".")), (T::N, Slice(0, None))]);
    s1 = Seq(&[(T::N, Rep(&Push(&x::w), 0, INF, T::N)), (T::N, S(".")), (T::N, Slice(1, None))]);
    s2 = Seq(&[(T::N, Rep(&Push(&x::w), 0, INF, T::N)), (T::N, S(".")), (T::N, Slice(0, Some(1)))]);
    s3 = Seq(&[(T::N, Rep(&Push(&x::w), 0, INF, T::N)), (T::N, S(".")), (T::N, Slice(0, Some(-1)))]);
    s4 = Seq(&[(T::N, Rep(&Push(&x::w), 0, INF, T::N)), (T::N, S(".")), (T::N, Slice(-2, None))]);
    s5 = Seq(&[(T::N, Rep(&Push(&x::w), 0, INF, T::N)), (T::N, S(".")), (T::N, Slice(-2, Some(-1)))]);
    s6 = Seq(&[(T::N, Rep(&Push(&x::w), 0, INF, T::N)), (T::N, S(".")), (T::N, Slice(1, Some(2)))]);
    s7 = Seq(&[(T::N, Rep(&Push(&x::w), 0, INF, T::N)), (T::N, S(".")), (T::N, Slice(0, Some(1)))]);
    s8 = Seq(&[(T::N, Rep(&Push(&x::w), 0, INF, T::N)), (T::N, S(".")), (T::N, Slice(2, Some(1)))]);
    s9 = Seq(&[(T::N, Rep(&Push(&x::w), 0, INF, T::N)), (T::N, S(".")), (T::N, Slice(-1, Some(0)))]);
}
entry!(h_gen, { let k = g::any_rule(); let s = ascii_upto(param(0)); g::run(k, s); });
// Grammars put together at random.
include!("../gen/stack.rs");
entry!(h_many, { let k = any_stack(); run_stack(k, among_upto(param(0), b"ab. c")); });
entry!(h_many_any, { let k = any_stack(); run_stack(k, text_upto(param(0), 3)); });
suite! { mod big = r##"
a = "a" | "b"
fill = pest::stack::push(a)*
all = fill - "." - pest::stack::peek_all
pops = fill - "." - pest::stack::pop_all - pest::stack::push(a)?
each = fill - "." - (pest::stack::pop)* - a?
low = fill - "." - pest::stack::peek[..2]
high = fill - "." - pest::stack::peek[256..258]
neg = fill - "." - pest::stack::peek[-257..-255]
mid = fill - "." - pest::stack::peek[-2..] - pest::stack::drop - pest::stack::peek
"##; opt = None; man = None;
    a = Alt(&[S("a"), S("b")]);
    fill = Rep(&Push(&x::a), 0, INF, T::N);
    all = Seq(&[(T::N, x::fill), (T::N, S(".")), (T::N, PeekAll)]);
    pops = Seq(&[(T::N, x::fill), (T::N, S(".")), (T::N, PopAll), (T::N, Opt(&Push(&x::a)))]);
    each = Seq(&[(T::N, x::fill), (T::N, S(".")), (T::N, Rep(&Pop, 0, INF, T::N)), (T::N, Opt(&x::a))]);
    low = Seq(&[(T::N, x::fill), (T::N, S(".")), (T::N, Slice(0, Some(2)))]);
    high = Seq(&[(T::N, x::fill), (T::N, S(".")), (T::N, Slice(256, Some(258)))]);
    neg = Seq(&[(T::N, x::fill), (T::N, S(".")), (T::N, Slice(-257, Some(-255)))]);
    mid = Seq(&[(T::N, x::fill), (T::N, S(".")), (T::N, Slice(-2, None)), (T::N, Drop), (T::N, Peek)]);
}
// Hundreds of texts on the stack; one of them and one character later are arbitrary.
entry!(h_big, {
    let n = [255, 256, 257, 258, 260][choose(5)];
    let mut v = vec![b'a'; n];
    let one = |v: &mut Vec<u8>, i: usize| { let b = byte(); assume(b == b'a' || b == b'b'); v[i] = b };
    let at = [0, 1, n - 1, n - 2, 3.min(n - 1), 255.min(n - 1)][choose(6)];
    one(&mut v, at);
    v.push(b'.');
    let k = 2 + choose(7);
    let want = if k <= 4 { n } else { 2 };
    for _ in 0..want { v.push(b'a') }
    let i = n + 1 + if want > 2 { [0, 1, want - 1, want - 2][choose(4)] } else { choose(2) };
    one(&mut v, i);
    if k == 8 { v.push(b'a') }
    let s: &'static str = unsafe { core::str::from_utf8_unchecked(v.leak()) };
    big::run(k, s);
});
harnesses!(h_ops, h_ops_text, h_slices, h_slices_edge, h_record, h_gen, h_many, h_many_any, h_big);
