//! Failed attempts leave the stack as it was.
#![allow(non_upper_case_globals, unused)]
use h::*;
use hrt::spec::{*, E::*};
use pest3_core::choice::{Choice2, Choice3};
use pest3_core::sequence::Sequence2;
use pest3_core::typed::template::{any, drop, peek, pop, pop_all, push, restore_on_none, Empty, Negative, Positive, Rep as RepT, RepMinMax, Str};

strs! { Sa = "a"; Sb = "b"; Sn = ""; }
/// Two operations, then something that may fail.
macro_rules! s2 { ($a:ty, $b:ty) => { Sequence2<$a, Empty, $b, Empty> } }
type Pp = s2!(pop<'static>, pop<'static>);
const PP: E = Seq(&[(T::N, Pop), (T::N, Pop)]);
type Pu = s2!(pop<'static>, push<any>);
const PU: E = Seq(&[(T::N, Pop), (T::N, Push(&Any))]);
type Up = s2!(push<any>, s2!(drop, drop));
const UP: E = Seq(&[(T::N, Push(&Any)), (T::N, Seq(&[(T::N, Drop), (T::N, Drop)]))]);
type Al = s2!(pop_all<'static>, push<Str<Sn>>);
const AL: E = Seq(&[(T::N, PopAll), (T::N, Push(&S("")))]);
type Nest = s2!(Option<s2!(pop<'static>, Option<s2!(drop, Str<Sb>)>)>, Str<Sa>);
const NEST: E = Seq(&[(T::N, Opt(&Seq(&[(T::N, Pop), (T::N, Opt(&Seq(&[(T::N, Drop), (T::N, S("b"))])))]))), (T::N, S("a"))]);
type Rp = s2!(RepT<s2!(drop, any), Empty>, push<any>);
const RP: E = Seq(&[(T::N, Rep(&Seq(&[(T::N, Drop), (T::N, Any)]), 0, INF, T::N)), (T::N, Push(&Any))]);
macro_rules! each { ($s:expr, $at:expr, $i:expr, $f:ident) => { match choose(6) {
    0 => $f!(Pp, PP, $s, $at, $i), 1 => $f!(Pu, PU, $s, $at, $i), 2 => $f!(Up, UP, $s, $at, $i),
    3 => $f!(Al, AL, $s, $at, $i), 4 => $f!(Nest, NEST, $s, $at, $i), _ => $f!(Rp, RP, $s, $at, $i),
} } }
macro_rules! forms { ($ty:ty, $e:expr, $s:expr, $at:expr, $i:expr) => { match choose(7) {
    0 => { stack_node::<Option<s2!($ty, Str<Sa>)>>(&NOG, &Opt(&Seq(&[(T::N, $e), (T::N, S("a"))])), $s, $at, $i); }
    1 => { stack_node::<Choice2<s2!($ty, Str<Sa>), peek<'static>>>(&NOG, &Alt(&[Seq(&[(T::N, $e), (T::N, S("a"))]), Peek]), $s, $at, $i); }
    2 => { stack_node::<Choice3<s2!($ty, Str<Sa>), s2!(drop, Str<Sb>), Str<Sn>>>(&NOG, &Alt(&[Seq(&[(T::N, $e), (T::N, S("a"))]), Seq(&[(T::N, Drop), (T::N, S("b"))]), S("")]), $s, $at, $i); }
    3 => { stack_node::<RepMinMax<s2!($ty, Str<Sa>), Option<drop>, 0, 2>>(&GD, &Rep(&Seq(&[(T::N, $e), (T::N, S("a"))]), 0, 2, T::O), $s, $at, $i); }
    4 => { stack_node::<s2!(Negative<s2!($ty, Str<Sa>)>, Str<Sn>)>(&NOG, &Seq(&[(T::N, Neg(&Seq(&[(T::N, $e), (T::N, S("a"))]))), (T::N, S(""))]), $s, $at, $i); }
    5 => { stack_node::<Option<s2!(Option<s2!($ty, Str<Sa>)>, Str<Sb>)>>(&NOG, &Opt(&Seq(&[(T::N, Opt(&Seq(&[(T::N, $e), (T::N, S("a"))]))), (T::N, S("b"))])), $s, $at, $i); }
    _ => { stack_node::<s2!(Option<$ty>, Option<s2!(pop<'static>, Str<Sb>)>)>(&NOG, &Seq(&[(T::N, Opt(&$e)), (T::N, Opt(&Seq(&[(T::N, Pop), (T::N, S("b"))])))]), $s, $at, $i); }
} } }
static GD: Gram = Gram { rules: &[], opt: Some(Opt(&Drop)), man: None };
entry!(h_forms, {
    let s = ascii_upto(param(0));
    let at = choose(s.len() + 1);
    let i = slices(s, choose(param(1) + 1));
    each!(s, at, &i, forms);
});
// Stack with only empty texts: every shape of pushes and removals, without the cost of comparing texts.
entry!(h_shapes, {
    let s = ascii_upto(param(0));
    let n = choose(param(1) + 1);
    let mut i = Vec::new();
    for k in 0..n { i.push((k.min(s.len()), k.min(s.len()))) }
    each!(s, 0, &i, forms);
});
// `restore_on_none` itself, with arbitrary sequences of operations around and inside.
entry!(h_restore, {
    let s = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    let mut st: Stack<Span<'static>> = Stack::new();
    let mut model: Vec<(usize, usize)> = Vec::new();
    let mut next = 0;
    fn op(st: &mut Stack<Span<'static>>, model: &mut Vec<(usize, usize)>, next: &mut usize, s: &'static str, depth: usize) {
        match choose(if depth > 0 { 3 } else { 2 }) {
            0 => { st.push(Span::new(s, *next, *next + 1).unwrap_or_else(|| fail("span"))); model.push((*next, *next + 1)); *next += 1 }
            1 => { let a = st.pop().is_some(); let b = model.pop().is_some(); ck(a == b, "pop") }
            _ => {
                let before = model.clone();
                let ok = flip();
                let r = restore_on_none(st, |st| {
                    for _ in 0..2 { op(st, model, next, s, depth - 1) }
                    if ok { Some(()) } else { None }
                });
                ck(r.is_some() == ok, "verdict of the attempt");
                if !ok { *model = before; cover(0) } else { cover(1) }
            }
        }
        ck(stack_is(st, model), "stack after the operation");
    }
    for _ in 0..param(0) { op(&mut st, &mut model, &mut next, s, param(1)) }
    trace(st.len() as u64);
});
// A successful positive predicate leaves the stack alone also when it is part of a kept attempt.
entry!(h_pos, {
    let s = ascii_upto(param(0));
    let i = slices(s, choose(param(1) + 1));
    stack_node::<s2!(Option<s2!(Positive<Pp>, drop)>, Option<s2!(Positive<Pu>, peek<'static>)>)>(&NOG,
        &Seq(&[(T::N, Opt(&Seq(&[(T::N, Pos(&PP)), (T::N, Drop)]))), (T::N, Opt(&Seq(&[(T::N, Pos(&PU)), (T::N, Peek)])))]), s, 0, &i);
});

suite! { mod g = r##"
~ = (" " | pest::stack::drop - "d")?
^ = "."
w      = 'a'..'c'
push   = pest::stack::push(w)
alt    = push - (push - "x" | pest::stack::pop - "y" | pest::stack::pop) - pest::stack::pop?
optp   = push - push - (pest::stack::pop - "x")? - pest::stack::pop_all
opt2   = push - push - ((pest::stack::pop - (pest::stack::pop - "x")?) - "y")? - pest::stack::pop_all
optk   = push - push - (pest::stack::pop - (pest::stack::drop - "x")?)? - pest::stack::pop_all - "."?
rep    = push - push - (pest::stack::pop - ",")* - pest::stack::pop_all
rept   = push - push - w~* - pest::stack::pop_all
repn   = push - push - push - ((pest::stack::pop - ",") - ";")* - "." - pest::stack::pop_all
pred   = push - push - !(pest::stack::pop - pest::stack::pop - "x") - pest::stack::pop - &(pest::stack::pop) - pest::stack::pop
gone   = push - (push - push - "x" | push - "y")? - pest::stack::peek_all
inner  = push - ((pest::stack::pop | "z") - "x" | pest::stack::pop - "y" | pest::stack::peek)
innerk = push - (((pest::stack::pop - "x")? - w) - "y" | pest::stack::pop) - pest::stack::pop?
rule   = alt - (optp | inner)? - pest::stack::pop?
deep   = push - push - ((((pest::stack::drop - ("x" | "y"))? - w?) - "x" | (pest::stack::drop - pest::stack::drop - "z")) | pest::stack::pop) - pest::stack::pop_all
"##; opt = Some(Opt(&Alt(&[S(" "), Seq(&[(T::N, Drop), (T::N, S("d"))])]))); man = Some(S("."));
    w = R('a', 'c');
    push = Push(&x::w);
    alt = Seq(&[(T::N, x::push), (T::N, Alt(&[Seq(&[(T::N, x::push), (T::N, S("x"))]), Seq(&[(T::N, Pop), (T::N, S("y"))]), Pop])), (T::N, Opt(&Pop))]);
    optp = Seq(&[(T::N, x::push), (T::N, x::push), (T::N, Opt(&Seq(&[(T::N, Pop), (T::N, S("x"))]))), (T::N, PopAll)]);
    opt2 = Seq(&[(T::N, x::push), (T::N, x::push), (T::N, Opt(&Seq(&[(T::N, Seq(&[(T::N, Pop), (T::N, Opt(&Seq(&[(T::N, Pop), (T::N, S("x"))])))])), (T::N, S("y"))]))), (T::N, PopAll)]);
    optk = Seq(&[(T::N, x::push), (T::N, x::push), (T::N, Opt(&Seq(&[(T::N, Pop), (T::N, Opt(&Seq(&[(T::N, Drop), (T::N, S("x"))])))]))), (T::N, PopAll), (T::N, Opt(&S(".")))]);
    rep = Seq(&[(T::N, x::push), (T::N, x::push), (T::N, Rep(&Seq(&[(T::N, Pop), (T::N, S(","))]), 0, INF, T::N)), (T::N, PopAll)]);
    rept = Seq(&[(T::N, x::push), (T::N, x::push), (T::N, Rep(&x::w, 0, INF, T::O)), (T::N, PopAll)]);
    repn = Seq(&[(T::N, x::push), (T::N, x::push), (T::N, x::push), (T::N, Rep(&Seq(&[(T::N, Seq(&[(T::N, Pop), (T::N, S(","))])), (T::N, S(";"))]), 0, INF, T::N)), (T::N, S(".")), (T::N, PopAll)]);
    pred = Seq(&[(T::N, x::push), (T::N, x::push), (T::N, Neg(&Seq(&[(T::N, Pop), (T::N, Pop), (T::N, S("x"))]))), (T::N, Pop), (T::N, Pos(&Pop)), (T::N, Pop)]);
    gone = Seq(&[(T::N, x::push), (T::N, Opt(&Alt(&[Seq(&[(T::N, x::push), (T::N, x::push), (T::N, S("x"))]), Seq(&[(T::N, x::push), (T::N, S("y"))])]))), (T::N, PeekAll)]);
    inner = Seq(&[(T::N, x::push), (T::N, Alt(&[Seq(&[(T::N, Alt(&[Pop, S("z")])), (T::N, S("x"))]), Seq(&[(T::N, Pop), (T::N, S("y"))]), Peek]))]);
    innerk = Seq(&[(T::N, x::push), (T::N, Alt(&[Seq(&[(T::N, Seq(&[(T::N, Opt(&Seq(&[(T::N, Pop), (T::N, S("x"))]))), (T::N, x::w)])), (T::N, S("y"))]), Pop])), (T::N, Opt(&Pop))]);
    rule = Seq(&[(T::N, x::alt), (T::N, Opt(&Alt(&[x::optp, x::inner]))), (T::N, Opt(&Pop))]);
    deep = Seq(&[(T::N, x::push), (T::N, x::push), (T::N, Alt(&[Alt(&[
        Seq(&[(T::N, Seq(&[(T::N, Opt(&Seq(&[(T::N, Drop), (T::N, Alt(&[S("x"), S("y")]))]))), (T::N, Opt(&x::w))])), (T::N, S("x"))]),
        Seq(&[(T::N, Drop), (T::N, Drop), (T::N, S("z"))])]), Pop])), (T::N, PopAll)]);
}
entry!(h_gen, { let k = g::any_rule(); let s = among_upto(param(0), b"abxy,d"); g::run(k, s); });
entry!(h_gen_any, { let k = g::any_rule(); let s = ascii_upto(param(0)); g::run(k, s); });
// Grammars put together at random.
include!("../gen/stack.rs");
entry!(h_many, { let k = any_stack(); run_stack(k, among_upto(param(0), b"ab. c")); });
entry!(h_many_any, { let k = any_stack(); run_stack(k, text_upto(param(0), 3)); });
include!("../snap.rs");
entry!(h_snap, { let k = snap::any_rule(); snap::run(k, among_upto(param(0), b"ab!c.")); });
harnesses!(h_snap, h_forms, h_shapes, h_restore, h_pos, h_gen, h_gen_any, h_many, h_many_any);
