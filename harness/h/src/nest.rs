// Rules in every position of the constructs.
suite! { mod nest = r##"
~ = sp*
^ = sp | "_" - a
sp     = " "
a      = "a"
b      = "b"
_s     = _{ a - b? }
_t     = _{ _s - u | b }
u      = _s | _t
seq3   = a ~ (b - _s) ~ a
optn   = (a - b)? - a? - _t?
repn   = (a | b - a)*
rept   = (a ~ b?)~{1..2} - _s*
push   = pest::stack::push(a - _s?) - pest::stack::pop - pest::stack::push(u)
pred   = &(a - a) - a - !(b - a) - u
back   = a - a - b - "!" | a - u - "?" | _s - a
deep   = nest1 - nest1?
nest1  = nest2 | "(" - deep - ")"
nest2  = _s
same   = a - a? - a{1..2}
sil    = _{ (a | b)~+ }
usesil = sil - "." - sil?
many   = a - b? - a? - b? - (a | b)? - "." - a - _s?
chars  = "x" - pest::any? - pest::eoi
wrap   = "(" - wrap? - ")" - a?
"##; opt = Some(Rep(&x::sp, 0, INF, T::N)); man = Some(Alt(&[x::sp, Seq(&[(T::N, S("_")), (T::N, x::a)])]));
    sp = S(" ");
    a = S("a");
    b = S("b");
    _s "_" = Seq(&[(T::N, x::a), (T::N, Opt(&x::b))]);
    _t "_" = Alt(&[Seq(&[(T::N, x::_s), (T::N, x::u)]), x::b]);
    u = Alt(&[x::_s, x::_t]);
    seq3 = Seq(&[(T::N, x::a), (T::O, Seq(&[(T::N, x::b), (T::N, x::_s)])), (T::O, x::a)]);
    optn = Seq(&[(T::N, Opt(&Seq(&[(T::N, x::a), (T::N, x::b)]))), (T::N, Opt(&x::a)), (T::N, Opt(&x::_t))]);
    repn = Rep(&Alt(&[x::a, Seq(&[(T::N, x::b), (T::N, x::a)])]), 0, INF, T::N);
    rept = Seq(&[(T::N, Rep(&Seq(&[(T::N, x::a), (T::O, Opt(&x::b))]), 1, 2, T::O)), (T::N, Rep(&x::_s, 0, INF, T::N))]);
    push = Seq(&[(T::N, Push(&Seq(&[(T::N, x::a), (T::N, Opt(&x::_s))]))), (T::N, Pop), (T::N, Push(&x::u))]);
    pred = Seq(&[(T::N, Pos(&Seq(&[(T::N, x::a), (T::N, x::a)]))), (T::N, x::a), (T::N, Neg(&Seq(&[(T::N, x::b), (T::N, x::a)]))), (T::N, x::u)]);
    back = Alt(&[Seq(&[(T::N, x::a), (T::N, x::a), (T::N, x::b), (T::N, S("!"))]), Seq(&[(T::N, x::a), (T::N, x::u), (T::N, S("?"))]), Seq(&[(T::N, x::_s), (T::N, x::a)])]);
    deep = Seq(&[(T::N, x::nest1), (T::N, Opt(&x::nest1))]);
    nest1 = Alt(&[x::nest2, Seq(&[(T::N, S("(")), (T::N, x::deep), (T::N, S(")"))])]);
    nest2 = x::_s;
    same = Seq(&[(T::N, x::a), (T::N, Opt(&x::a)), (T::N, Rep(&x::a, 1, 2, T::N))]);
    sil "_" = Rep(&Alt(&[x::a, x::b]), 1, INF, T::O);
    usesil = Seq(&[(T::N, x::sil), (T::N, S(".")), (T::N, Opt(&x::sil))]);
    many = Seq(&[(T::N, x::a), (T::N, Opt(&x::b)), (T::N, Opt(&x::a)), (T::N, Opt(&x::b)), (T::N, Opt(&Alt(&[x::a, x::b]))), (T::N, S(".")), (T::N, x::a), (T::N, Opt(&x::_s))]);
    chars = Seq(&[(T::N, S("x")), (T::N, Opt(&Any)), (T::N, Eoi)]);
    wrap = Seq(&[(T::N, S("(")), (T::N, Opt(&x::wrap)), (T::N, S(")")), (T::N, Opt(&x::a))]);
}
