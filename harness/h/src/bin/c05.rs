//! Repetition and option.
#![allow(non_upper_case_globals, unused)]
use h::*;
use hrt::spec::{*, E::*};
use pest3_core::typed::template::{CharRange, Empty, Rep as RepT, RepMax, RepMin, RepMinMax, RepOnce, Str};
use pest3_core::typed::NeverFailedTypedNode;

const A: E = S("a");
const AB: E = Alt(&[S("ab"), S("b")]);
const TWO: E = Seq(&[(T::N, S("a")), (T::N, S("b"))]);
suite! { mod g = r##"
~ = " "*
^ = "." - " "?
star   = "a"*
plus   = "a"+
opt    = "a"?
ex1    = "a"{1}
ex2    = "a"{2}
ex3    = "a"{3}
min0   = "a"{0..}
min1   = "a"{1..}
min2   = "a"{2..}
max1   = "a"{..1}
max3   = "a"{..3}
mm02   = "a"{0..2}
mm13   = "a"{1..3}
mm22   = "a"{2..2}
mm24   = "a"{2..4}
free   = "a"{..}
ostar  = "a"~*
oplus  = "a"~+
oex2   = "a"~{2}
oex3   = "a"~{3}
omin2  = "a"~{2..}
omax2  = "a"~{..2}
omm13  = "a"~{1..3}
mstar  = "a"^*
mplus  = "a"^+
mex2   = "a"^{2}
mmin2  = "a"^{2..}
mmax2  = "a"^{..2}
mmm23  = "a"^{2..3}
"##; opt = Some(Rep(&S(" "), 0, INF, T::N)); man = Some(Seq(&[(T::N, S(".")), (T::N, Opt(&S(" ")))]));
    star = Rep(&A, 0, INF, T::N); plus = Rep(&A, 1, INF, T::N); opt = Opt(&A);
    ex1 = Rep(&A, 1, 1, T::N); ex2 = Rep(&A, 2, 2, T::N); ex3 = Rep(&A, 3, 3, T::N);
    min0 = Rep(&A, 0, INF, T::N); min1 = Rep(&A, 1, INF, T::N); min2 = Rep(&A, 2, INF, T::N);
    max1 = Rep(&A, 0, 1, T::N); max3 = Rep(&A, 0, 3, T::N);
    mm02 = Rep(&A, 0, 2, T::N); mm13 = Rep(&A, 1, 3, T::N); mm22 = Rep(&A, 2, 2, T::N); mm24 = Rep(&A, 2, 4, T::N); free = Rep(&A, 0, INF, T::N);
    ostar = Rep(&A, 0, INF, T::O); oplus = Rep(&A, 1, INF, T::O); oex2 = Rep(&A, 2, 2, T::O); oex3 = Rep(&A, 3, 3, T::O);
    omin2 = Rep(&A, 2, INF, T::O); omax2 = Rep(&A, 0, 2, T::O); omm13 = Rep(&A, 1, 3, T::O);
    mstar = Rep(&A, 0, INF, T::M); mplus = Rep(&A, 1, INF, T::M); mex2 = Rep(&A, 2, 2, T::M);
    mmin2 = Rep(&A, 2, INF, T::M); mmax2 = Rep(&A, 0, 2, T::M); mmm23 = Rep(&A, 2, 3, T::M);
}
suite! { mod w = r##"
~ = (" " | note)*
^ = " "+
note = "#" - "!"?
item = "a" - "b" | "b"
stars  = item* - "c"?
plusx  = item~+ ~ "c"
opt2   = (item ~ item)? - "c"?
mid    = "c" ~ item~* ~ "c"
midm   = "c" ^ item^* ^ "c"
tail   = item~* - " c"
mintl  = item~{1..2} - " c"?
nested = (item~+ - ",")~* - item?
nestm  = ((item^{1..2}) - ","?)^{..2}
oo     = (("a"? - "b")? - "c")?
optseq = "a" ~ "b"? ~ "c"
pair   = ("a" ~ "b"){2}
pairo  = ("a" - "b")~{..2} ~ "a"?
refs   = stars ~ stars?
wide   = ('0'..'9' | 'a'..'z')+ - ('A'..'Z' - 'a'..'z'*)~{1..2}
"##; opt = Some(Rep(&Alt(&[S(" "), x::note]), 0, INF, T::N)); man = Some(Rep(&S(" "), 1, INF, T::N));
    note = Seq(&[(T::N, S("#")), (T::N, Opt(&S("!")))]);
    item = Alt(&[TWO, S("b")]);
    stars = Seq(&[(T::N, Rep(&x::item, 0, INF, T::N)), (T::N, Opt(&S("c")))]);
    plusx = Seq(&[(T::N, Rep(&x::item, 1, INF, T::O)), (T::O, S("c"))]);
    opt2 = Seq(&[(T::N, Opt(&Seq(&[(T::N, x::item), (T::O, x::item)]))), (T::N, Opt(&S("c")))]);
    mid = Seq(&[(T::N, S("c")), (T::O, Rep(&x::item, 0, INF, T::O)), (T::O, S("c"))]);
    midm = Seq(&[(T::N, S("c")), (T::M, Rep(&x::item, 0, INF, T::M)), (T::M, S("c"))]);
    tail = Seq(&[(T::N, Rep(&x::item, 0, INF, T::O)), (T::N, S(" c"))]);
    mintl = Seq(&[(T::N, Rep(&x::item, 1, 2, T::O)), (T::N, Opt(&S(" c")))]);
    nested = Seq(&[(T::N, Rep(&Seq(&[(T::N, Rep(&x::item, 1, INF, T::O)), (T::N, S(","))]), 0, INF, T::O)), (T::N, Opt(&x::item))]);
    nestm = Rep(&Seq(&[(T::N, Rep(&x::item, 1, 2, T::M)), (T::N, Opt(&S(",")))]), 0, 2, T::M);
    oo = Opt(&Seq(&[(T::N, Opt(&Seq(&[(T::N, Opt(&S("a"))), (T::N, S("b"))]))), (T::N, S("c"))]));
    optseq = Seq(&[(T::N, S("a")), (T::O, Opt(&S("b"))), (T::O, S("c"))]);
    pair = Rep(&Seq(&[(T::N, S("a")), (T::O, S("b"))]), 2, 2, T::N);
    pairo = Seq(&[(T::N, Rep(&TWO, 0, 2, T::O)), (T::O, Opt(&S("a")))]);
    refs = Seq(&[(T::N, x::stars), (T::O, Opt(&x::stars))]);
    wide = Seq(&[(T::N, Rep(&Alt(&[R('0', '9'), R('a', 'z')]), 1, INF, T::N)), (T::N, Rep(&Seq(&[(T::N, R('A', 'Z')), (T::N, Rep(&R('a', 'z'), 0, INF, T::N))]), 1, 2, T::O))]);
}
entry!(h_forms, { let k = g::any_rule(); let s = ascii_upto(param(0)); g::run(k, s); });
entry!(h_mixed, { let k = w::any_rule(); let s = among_upto(param(0), b"ab ,c#"); w::run(k, s); });
entry!(h_mixed_any, { let k = w::any_rule(); let s = ascii_upto(param(0)); w::run(k, s); });

// Library types: the rounds are listed in order and nothing else is.
strs! { Sp = " "; Sab = "ab"; Sb = "b"; Sa = "a"; }
type Item = CharRange<'a', 'f'>;
const IT: E = R('a', 'f');
static GT: Gram = Gram { rules: &[], opt: Some(S(" ")), man: None };
macro_rules! rounds { ($ty:ty, $e:expr, $step:expr, $s:expr, $at:expr) => { if let Some((p, n)) = node_at::<$ty>(&GT, $e, $s, $at) {
    let b = $s.as_bytes();
    let step: usize = $step;
    let k = n.content.len();
    ck(if k == 0 { p == $at } else { p == $at + 1 + (k - 1) * step }, "number of rounds listed");
    let mut i = 0;
    for c in n.iter() { ck(c.content as u32 == b[$at + i * step] as u32, "a listed round is not the one matched there"); i += 1 }
    ck(i == k, "iter");
    let mut i = 0;
    for c in n.clone().into_iter() { ck(c.content as u32 == b[$at + i * step] as u32, "by value: a listed round is not the one matched there"); i += 1 }
    ck(i == k, "into_iter");
} } }
entry!(h_types, {
    let s = ascii_upto(param(0));
    let at = choose(s.len() + 1);
    match choose(12) {
        0 => rounds!(RepT<Item, Empty>, &Rep(&IT, 0, INF, T::N), 1, s, at),
        1 => rounds!(RepOnce<Item, Empty>, &Rep(&IT, 1, INF, T::N), 1, s, at),
        2 => rounds!(RepMin<Item, Empty, 2>, &Rep(&IT, 2, INF, T::N), 1, s, at),
        3 => rounds!(RepMax<Item, Empty, 2>, &Rep(&IT, 0, 2, T::N), 1, s, at),
        4 => rounds!(RepMinMax<Item, Empty, 1, 3>, &Rep(&IT, 1, 3, T::N), 1, s, at),
        5 => rounds!(RepMinMax<Item, Empty, 2, 2>, &Rep(&IT, 2, 2, T::N), 1, s, at),
        6 => rounds!(RepT<Item, Str<Sp>>, &Rep(&IT, 0, INF, T::O), 2, s, at),
        7 => rounds!(RepOnce<Item, Str<Sp>>, &Rep(&IT, 1, INF, T::O), 2, s, at),
        8 => rounds!(RepMin<Item, Str<Sp>, 2>, &Rep(&IT, 2, INF, T::O), 2, s, at),
        9 => rounds!(RepMax<Item, Str<Sp>, 2>, &Rep(&IT, 0, 2, T::O), 2, s, at),
        10 => rounds!(RepMinMax<Item, Str<Sp>, 2, 3>, &Rep(&IT, 2, 3, T::O), 2, s, at),
        _ => { node_at::<Option<Item>>(&GT, &Opt(&IT), s, at); }
    }
});
entry!(h_option, {
    let (s, at) = text_at(param(0), 2);
    if let Some((p, n)) = node_at::<Option<Str<Sab>>>(&NOG, &Opt(&S("ab")), s, at) {
        ck(n.is_some() == (p == at + 2), "the option is there exactly when something was consumed");
    }
});
// The entry point of repetitions that cannot fail.
entry!(h_never, {
    let s = among_upto(param(0), b"a .");
    static GN: Gram = Gram { rules: &[], opt: Some(S(".")), man: None };
    type In = RepMax<Str<Sa>, Empty, 2>;
    strs! { Dot = "."; }
    type Out = RepMax<In, Str<Dot>, 3>;
    let e = Rep(&Rep(&S("a"), 0, 2, T::N), 0, 3, T::O);
    let mut m = M::new(&GN, s);
    let w = m.run(&e, 0).unwrap();
    let (p, n) = <Out as NeverFailedTypedNode<'static, Q>>::parse_partial(s);
    ck(p.pos() == w, "end of a repetition that cannot fail");
    let (q, n2) = <Out as TypedNode<'static, Q>>::try_parse_partial(s).unwrap_or_else(|_| fail("a repetition from zero failed"));
    ck(q.pos() == w, "end of the same repetition through the other entry point");
    ck(n.content.len() == n2.content.len(), "rounds");
    for i in 0..n.content.len() { ck(n.content[i].content.len() == n2.content[i].content.len(), "inner rounds") }
    cover((w > 0) as u32);
    trace(w as u64);
});
// Grammars put together at random.
include!("../gen/rep.rs");
entry!(h_many, { let k = any_rep(); run_rep(k, among_upto(param(0), b"abc._ ")); });
entry!(h_many_any, { let k = any_rep(); run_rep(k, text_upto(param(0), 3)); });
suite! { mod big = r##"
~ = " "
^ = "_"
all = "a"* - "b"?
sep = ("a" - ",")+ - "b"
cnt = "a"{257}
rng = "a"{3..256}
low = "a"{258..}
max = "a"{..255} - "a"?
spc = "a"~{256..257} - "b"
man = "a"^*
"##; opt = Some(S(" ")); man = Some(S("_"));
    all = Seq(&[(T::N, Rep(&S("a"), 0, INF, T::N)), (T::N, Opt(&S("b")))]);
    sep = Seq(&[(T::N, Rep(&Seq(&[(T::N, S("a")), (T::N, S(","))]), 1, INF, T::N)), (T::N, S("b"))]);
    cnt = Rep(&S("a"), 257, 257, T::N);
    rng = Rep(&S("a"), 3, 256, T::N);
    low = Rep(&S("a"), 258, INF, T::N);
    max = Seq(&[(T::N, Rep(&S("a"), 0, 255, T::N)), (T::N, Opt(&S("a")))]);
    spc = Seq(&[(T::N, Rep(&S("a"), 256, 257, T::O)), (T::N, S("b"))]);
    man = Rep(&S("a"), 0, INF, T::M);
}
// Hundreds of rounds, then anything.
entry!(h_big, {
    let k = big::any_rule();
    let unit = ["a", "a", "a", "a", "a", "a", "a", "a"][k];
    let sep = ["", ",", "", "", "", "", " ", "_"][k];
    let n = [254, 255, 256, 257, 258, 1030][choose(6)];
    let mut s = String::new();
    for i in 0..n { s.push_str(unit); if i + 1 < n || k == 1 { s.push_str(sep) } }
    s.push_str(among_upto(param(0), b"ab, _"));
    big::run(k, s.leak());
});
// Rounds that match nothing count as rounds; generated grammars with parts that can match nothing.
suite! { mod emp = r##"
~ = " "
^ = "_"
e24  = ""{2..4}
e3   = ""{3} - "a"?
o34  = ("a"?){3..4} - "b"?
o2   = ("a"?){2} - "a"?
om2  = ("a"?){..2} - "b"
s24  = ("a"*){2..4} - "b"?
ot23 = ("a"?)~{2..3} - "b"?
om23 = ("a"?)^{2..3} - "b"?
p22  = (&"a"){2..2} - "a"
n13  = (!"b"){1..3} - "a"?
x13  = (("a"? - "b"?){1..2} - "c"?)~{1..3}
oo   = ("a"?)?
ox   = (("a"?){2} - "b")?
"##; opt = Some(S(" ")); man = Some(S("_"));
    e24 = Rep(&S(""), 2, 4, T::N);
    e3 = Seq(&[(T::N, Rep(&S(""), 3, 3, T::N)), (T::N, Opt(&S("a")))]);
    o34 = Seq(&[(T::N, Rep(&Opt(&S("a")), 3, 4, T::N)), (T::N, Opt(&S("b")))]);
    o2 = Seq(&[(T::N, Rep(&Opt(&S("a")), 2, 2, T::N)), (T::N, Opt(&S("a")))]);
    om2 = Seq(&[(T::N, Rep(&Opt(&S("a")), 0, 2, T::N)), (T::N, S("b"))]);
    s24 = Seq(&[(T::N, Rep(&Rep(&S("a"), 0, INF, T::N), 2, 4, T::N)), (T::N, Opt(&S("b")))]);
    ot23 = Seq(&[(T::N, Rep(&Opt(&S("a")), 2, 3, T::O)), (T::N, Opt(&S("b")))]);
    om23 = Seq(&[(T::N, Rep(&Opt(&S("a")), 2, 3, T::M)), (T::N, Opt(&S("b")))]);
    p22 = Seq(&[(T::N, Rep(&Pos(&S("a")), 2, 2, T::N)), (T::N, S("a"))]);
    n13 = Seq(&[(T::N, Rep(&Neg(&S("b")), 1, 3, T::N)), (T::N, Opt(&S("a")))]);
    x13 = Rep(&Seq(&[(T::N, Rep(&Seq(&[(T::N, Opt(&S("a"))), (T::N, Opt(&S("b")))]), 1, 2, T::N)), (T::N, Opt(&S("c")))]), 1, 3, T::O);
    oo = Opt(&Opt(&S("a")));
    ox = Opt(&Seq(&[(T::N, Rep(&Opt(&S("a")), 2, 2, T::N)), (T::N, S("b"))]));
}
entry!(h_empty, { let k = emp::any_rule(); let s = among_upto(param(0), b"abc _"); emp::run(k, s); });
// The number of rounds listed when rounds can be empty.
entry!(h_empty_rounds, {
    let s = among_upto(param(0), b"ab ");
    static GN: Gram = Gram { rules: &[], opt: Some(S(" ")), man: None };
    let n = choose(5);
    type O = Option<Str<Sa>>;
    macro_rules! go { ($ty:ty, $min:expr, $max:expr, $t:expr) => { if let Some((_, n)) = node_at::<$ty>(&GN, &Rep(&Opt(&S("a")), $min, $max, $t), s, 0) {
        // With nothing to stop them, the rounds go on to the largest number.
        ck(n.content.len() == $max, "the number of rounds");
        let mut k = 0;
        for r in n.iter() { if r.is_some() { k += 1 } }
        trace(k)
    } } }
    match n {
        0 => go!(RepMinMax<O, Empty, 3, 4>, 3, 4, T::N),
        1 => go!(RepMax<O, Empty, 3>, 0, 3, T::N),
        2 => go!(RepMinMax<O, Empty, 2, 2>, 2, 2, T::N),
        3 => {
            let m = match node_at::<RepMinMax<O, Str<Sp>, 2, 3>>(&GN, &Rep(&Opt(&S("a")), 2, 3, T::O), s, 0) { Some((_, n)) => n.content.len(), None => 0 };
            trace(m as u64)
        }
        _ => go!(RepMinMax<O, Empty, 0, 5>, 0, 5, T::N),
    }
});
include!("../gen/null.rs");
entry!(h_null, { let k = any_null(); run_null(k, among_upto(param(0), b"abc._ ")); });
harnesses!(h_empty, h_empty_rounds, h_null, h_forms, h_mixed, h_mixed_any, h_types, h_option, h_never, h_many, h_many_any, h_big);
