// Rules for failure reports.
suite! { mod rep = r##"
~ = sp*
sp    = " "
a     = "a"
b     = "b"
c     = "c"
ab    = a - b
abc   = ab - c | a - ab
exp   = !a - !b - c | !(a - b) - a - a
unexp = !(a | b - c) - pest::any - !c
dbl   = !(!a - b) - a - c?
look  = &(a | b) - !&b - (ab | abc)
list  = "[" ~ (ab ~ ("," ~ ab)~*)? ~ "]"
in1   = "(" - in2? - c?
in2   = a - in3? | b
in3   = "." - a - c
opt   = a? - b? - !c - ("." - ab)?
stk   = pest::stack::push(a | b) - st2
st2   = pest::stack::pop - st3 | "." - st3 - c
st3   = pest::stack::drop | pest::stack::peek[1..] - a | pest::stack::peek[-2..-1] - b
negst = !(a - pest::stack::pop - b) - a - !pest::stack::peek[..2] - pest::stack::peek
leafl = "abc" | "abd" | "."
two   = leafl - sp - leafl - !(leafl - sp) - (leafl - sp - a)?
alt   = a - (b - ("x" | c) | c - b) | ab - a | abc
sil   = _sl - _sl - b
_sl   = _{ a | b - c }
"##; opt = Some(Rep(&x::sp, 0, INF, T::N)); man = None;
    sp = S(" ");
    a = S("a");
    b = S("b");
    c = S("c");
    ab = Seq(&[(T::N, x::a), (T::N, x::b)]);
    abc = Alt(&[Seq(&[(T::N, x::ab), (T::N, x::c)]), Seq(&[(T::N, x::a), (T::N, x::ab)])]);
    exp = Alt(&[Seq(&[(T::N, Neg(&x::a)), (T::N, Neg(&x::b)), (T::N, x::c)]), Seq(&[(T::N, Neg(&Seq(&[(T::N, x::a), (T::N, x::b)]))), (T::N, x::a), (T::N, x::a)])]);
    unexp = Seq(&[(T::N, Neg(&Alt(&[x::a, Seq(&[(T::N, x::b), (T::N, x::c)])]))), (T::N, Any), (T::N, Neg(&x::c))]);
    dbl = Seq(&[(T::N, Neg(&Seq(&[(T::N, Neg(&x::a)), (T::N, x::b)]))), (T::N, x::a), (T::N, Opt(&x::c))]);
    look = Seq(&[(T::N, Pos(&Alt(&[x::a, x::b]))), (T::N, Neg(&Pos(&x::b))), (T::N, Alt(&[x::ab, x::abc]))]);
    list = Seq(&[(T::N, S("[")), (T::O, Opt(&Seq(&[(T::N, x::ab), (T::O, Rep(&Seq(&[(T::N, S(",")), (T::O, x::ab)]), 0, INF, T::O))]))), (T::O, S("]"))]);
    in1 = Seq(&[(T::N, S("(")), (T::N, Opt(&x::in2)), (T::N, Opt(&x::c))]);
    in2 = Alt(&[Seq(&[(T::N, x::a), (T::N, Opt(&x::in3))]), x::b]);
    in3 = Seq(&[(T::N, S(".")), (T::N, x::a), (T::N, x::c)]);
    opt = Seq(&[(T::N, Opt(&x::a)), (T::N, Opt(&x::b)), (T::N, Neg(&x::c)), (T::N, Opt(&Seq(&[(T::N, S(".")), (T::N, x::ab)])))]);
    stk = Seq(&[(T::N, Push(&Alt(&[x::a, x::b]))), (T::N, x::st2)]);
    st2 = Alt(&[Seq(&[(T::N, Pop), (T::N, x::st3)]), Seq(&[(T::N, S(".")), (T::N, x::st3), (T::N, x::c)])]);
    st3 = Alt(&[Drop, Seq(&[(T::N, Slice(1, None)), (T::N, x::a)]), Seq(&[(T::N, Slice(-2, Some(-1))), (T::N, x::b)])]);
    negst = Seq(&[(T::N, Neg(&Seq(&[(T::N, x::a), (T::N, Pop), (T::N, x::b)]))), (T::N, x::a), (T::N, Neg(&Slice(0, Some(2)))), (T::N, Peek)]);
    leafl = Alt(&[S("abc"), S("abd"), S(".")]);
    two = Seq(&[(T::N, x::leafl), (T::N, x::sp), (T::N, x::leafl), (T::N, Neg(&Seq(&[(T::N, x::leafl), (T::N, x::sp)]))), (T::N, Opt(&Seq(&[(T::N, x::leafl), (T::N, x::sp), (T::N, x::a)])))]);
    alt = Alt(&[Seq(&[(T::N, x::a), (T::N, Alt(&[Seq(&[(T::N, x::b), (T::N, Alt(&[S("x"), x::c]))]), Seq(&[(T::N, x::c), (T::N, x::b)])]))]), Seq(&[(T::N, x::ab), (T::N, x::a)]), x::abc]);
    sil = Seq(&[(T::N, x::_sl), (T::N, x::_sl), (T::N, x::b)]);
    _sl "_" = Alt(&[x::a, Seq(&[(T::N, x::b), (T::N, x::c)])]);
}

