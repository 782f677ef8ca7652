//! Predicates.
#![allow(non_upper_case_globals, unused)]
use h::*;
use hrt::spec::{*, E::*};
use pest3_core::choice::Choice2;
use pest3_core::sequence::Sequence2;
use pest3_core::typed::template::{any, drop, peek, pop, pop_all, push, soi, Empty, Negative, Positive, Rep as RepT, Str};

suite! { mod g = r##"
~ = " "*
^ = " "+
ab     = "a" - "b"
pos    = &"a" - pest::any
neg    = !"a" - pest::any
posr   = &ab - pest::any - pest::any?
negr   = !ab - pest::any
pp     = &&"a" - pest::any
nn     = !!"a" - pest::any
pn     = &!"a" - pest::any
np     = !&"a" - pest::any
nnn    = !!!ab - pest::any
end    = "a" - &pest::eoi
start  = &pest::soi - "a" - !pest::soi
until  = (!ab - pest::any)* - ab
both   = &ab - !"abc" - pest::any+
seq    = &("a" ~ "b") - "a" ~ "b"
cho    = &("a" | "b" - "c") - pest::any - !("d" | "e") - pest::any?
opt    = &("a"?) - "a"? - !("b"?) - "b" | pest::any
rep    = &("a"*) - "a" - !("b"+) - pest::any | "c"
last   = "a" - !"b"
only   = &ab
onlyn  = !ab
trivia = "a" ~ &"b" ~ "b" ^ !"c" ^ pest::any
pushp  = &(pest::stack::push("a")) - "a" - !pest::stack::peek - pest::any
pushn  = pest::stack::push(pest::any) - !(pest::stack::push("b") - pest::stack::peek) - pest::stack::pop
popp   = pest::stack::push(pest::any) - &(pest::stack::pop) - pest::stack::pop
popn   = pest::stack::push(pest::any) - !(pest::stack::pop) - pest::any - pest::stack::pop
popnn  = pest::stack::push(pest::any) - pest::stack::push(pest::any) - !!(pest::stack::pop - pest::stack::pop) - pest::stack::pop_all
dropp  = pest::stack::push("a") - &(pest::stack::drop - "b") - !(pest::stack::drop - pest::stack::drop) - "b" - pest::stack::pop
inpred = pest::stack::push("a") - &(!(pest::stack::pop - "b") - pest::stack::pop) - pest::any - pest::stack::peek?
"##; opt = Some(Rep(&S(" "), 0, INF, T::N)); man = Some(Rep(&S(" "), 1, INF, T::N));
    ab = Seq(&[(T::N, S("a")), (T::N, S("b"))]);
    pos = Seq(&[(T::N, Pos(&S("a"))), (T::N, Any)]);
    neg = Seq(&[(T::N, Neg(&S("a"))), (T::N, Any)]);
    posr = Seq(&[(T::N, Pos(&x::ab)), (T::N, Any), (T::N, Opt(&Any))]);
    negr = Seq(&[(T::N, Neg(&x::ab)), (T::N, Any)]);
    pp = Seq(&[(T::N, Pos(&Pos(&S("a")))), (T::N, Any)]);
    nn = Seq(&[(T::N, Neg(&Neg(&S("a")))), (T::N, Any)]);
    pn = Seq(&[(T::N, Pos(&Neg(&S("a")))), (T::N, Any)]);
    np = Seq(&[(T::N, Neg(&Pos(&S("a")))), (T::N, Any)]);
    nnn = Seq(&[(T::N, Neg(&Neg(&Neg(&x::ab)))), (T::N, Any)]);
    end = Seq(&[(T::N, S("a")), (T::N, Pos(&Eoi))]);
    start = Seq(&[(T::N, Pos(&Soi)), (T::N, S("a")), (T::N, Neg(&Soi))]);
    until = Seq(&[(T::N, Rep(&Seq(&[(T::N, Neg(&x::ab)), (T::N, Any)]), 0, INF, T::N)), (T::N, x::ab)]);
    both = Seq(&[(T::N, Pos(&x::ab)), (T::N, Neg(&S("abc"))), (T::N, Rep(&Any, 1, INF, T::N))]);
    seq = Seq(&[(T::N, Pos(&Seq(&[(T::N, S("a")), (T::O, S("b"))]))), (T::N, S("a")), (T::O, S("b"))]);
    cho = Seq(&[(T::N, Pos(&Alt(&[S("a"), Seq(&[(T::N, S("b")), (T::N, S("c"))])]))), (T::N, Any), (T::N, Neg(&Alt(&[S("d"), S("e")]))), (T::N, Opt(&Any))]);
    opt = Alt(&[Seq(&[(T::N, Pos(&Opt(&S("a")))), (T::N, Opt(&S("a"))), (T::N, Neg(&Opt(&S("b")))), (T::N, S("b"))]), Any]);
    rep = Alt(&[Seq(&[(T::N, Pos(&Rep(&S("a"), 0, INF, T::N))), (T::N, S("a")), (T::N, Neg(&Rep(&S("b"), 1, INF, T::N))), (T::N, Any)]), S("c")]);
    last = Seq(&[(T::N, S("a")), (T::N, Neg(&S("b")))]);
    only = Pos(&x::ab);
    onlyn = Neg(&x::ab);
    trivia = Seq(&[(T::N, S("a")), (T::O, Pos(&S("b"))), (T::O, S("b")), (T::M, Neg(&S("c"))), (T::M, Any)]);
    pushp = Seq(&[(T::N, Pos(&Push(&S("a")))), (T::N, S("a")), (T::N, Neg(&Peek)), (T::N, Any)]);
    pushn = Seq(&[(T::N, Push(&Any)), (T::N, Neg(&Seq(&[(T::N, Push(&S("b"))), (T::N, Peek)]))), (T::N, Pop)]);
    popp = Seq(&[(T::N, Push(&Any)), (T::N, Pos(&Pop)), (T::N, Pop)]);
    popn = Seq(&[(T::N, Push(&Any)), (T::N, Neg(&Pop)), (T::N, Any), (T::N, Pop)]);
    popnn = Seq(&[(T::N, Push(&Any)), (T::N, Push(&Any)), (T::N, Neg(&Neg(&Seq(&[(T::N, Pop), (T::N, Pop)])))), (T::N, PopAll)]);
    dropp = Seq(&[(T::N, Push(&S("a"))), (T::N, Pos(&Seq(&[(T::N, Drop), (T::N, S("b"))]))), (T::N, Neg(&Seq(&[(T::N, Drop), (T::N, Drop)]))), (T::N, S("b")), (T::N, Pop)]);
    inpred = Seq(&[(T::N, Push(&S("a"))), (T::N, Pos(&Seq(&[(T::N, Neg(&Seq(&[(T::N, Pop), (T::N, S("b"))]))), (T::N, Pop)]))), (T::N, Any), (T::N, Opt(&Peek))]);
}
entry!(h_gen, { let k = g::any_rule(); let s = ascii_upto(param(0)); g::run(k, s); });
entry!(h_gen_text, { let k = g::any_rule(); let s = text_upto(param(0), 3); g::run(k, s); });

// One predicate of the library, started from an arbitrary stack, position and text.
strs! { Sa = "a"; Sab = "ab"; }
type P1 = Sequence2<pop<'static>, Empty, pop<'static>, Empty>;
const POP2: E = Seq(&[(T::N, Pop), (T::N, Pop)]);
type P2 = Sequence2<push<any>, Empty, peek<'static>, Empty>;
const PUSHPEEK: E = Seq(&[(T::N, Push(&Any)), (T::N, Peek)]);
type P3 = Sequence2<pop<'static>, Empty, push<Str<Sa>>, Empty>;
const POPPUSH: E = Seq(&[(T::N, Pop), (T::N, Push(&S("a")))]);
type P4 = Sequence2<RepT<Sequence2<drop, Empty, any, Empty>, Empty>, Empty, Str<Sa>, Empty>;
const DROPS: E = Seq(&[(T::N, Rep(&Seq(&[(T::N, Drop), (T::N, Any)]), 0, INF, T::N)), (T::N, S("a"))]);
type P5 = Choice2<Sequence2<pop_all<'static>, Empty, Str<Sa>, Empty>, Sequence2<pop<'static>, Empty, Str<Sa>, Empty>>;
const CHOICE: E = Alt(&[Seq(&[(T::N, PopAll), (T::N, S("a"))]), Seq(&[(T::N, Pop), (T::N, S("a"))])]);
macro_rules! both { ($ty:ty, $e:expr, $s:expr, $at:expr, $i:expr) => { match choose(4) {
    0 => { stack_node::<Positive<$ty>>(&NOG, &Pos(&$e), $s, $at, $i); }
    1 => { stack_node::<Negative<$ty>>(&NOG, &Neg(&$e), $s, $at, $i); }
    2 => { stack_node::<Negative<Positive<$ty>>>(&NOG, &Neg(&Pos(&$e)), $s, $at, $i); }
    _ => { stack_node::<Positive<Negative<$ty>>>(&NOG, &Pos(&Neg(&$e)), $s, $at, $i); }
} } }
entry!(h_stack, {
    let s = ascii_upto(param(0));
    let at = choose(s.len() + 1);
    let i = slices(s, choose(param(1) + 1));
    match choose(6) {
        0 => both!(P1, POP2, s, at, &i),
        1 => both!(P2, PUSHPEEK, s, at, &i),
        2 => both!(P3, POPPUSH, s, at, &i),
        3 => both!(P4, DROPS, s, at, &i),
        4 => both!(P5, CHOICE, s, at, &i),
        _ => both!(soi, Soi, s, at, &i),
    }
});
// Grammars put together at random.
include!("../gen/pred.rs");
entry!(h_many, { let k = any_pred(); run_pred(k, among_upto(param(0), b"abc._ ")); });
entry!(h_many_any, { let k = any_pred(); run_pred(k, text_upto(param(0), 3)); });
harnesses!(h_gen, h_gen_text, h_stack, h_many, h_many_any);
