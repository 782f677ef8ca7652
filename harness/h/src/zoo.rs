// Grammars that use every construct together; included by the checks of the properties that hold for all of them.
suite! { mod calls = r##"
~ = " "*
^ = ","
d      = '0'..'9'
w      = 'a'..'c'
_quiet = _{ d }
num    = d+
id     = w - (w | d)*
key    = "if" | "for"
atom   = num | id | "(" ~ sum ~ ")"
sum    = atom ~ ("+" ~ atom)~*
call   = id - "(" - (sum ^ sum?)? - ")"
stmt   = key - !id ~ sum | id ~ "=" ~ sum
hush   = _{ id ~ num }
mixd   = hush - id? | _quiet - w
neg    = !num - w
many   = (w{2} - d){..2} - (d | w - d)*
opts   = d? ~ w? - &("." | pest::eoi) - "."?
"##; opt = Some(Rep(&S(" "), 0, INF, T::N)); man = Some(S(","));
    d = R('0', '9');
    w = R('a', 'c');
    _quiet "_" = x::d;
    num = Rep(&x::d, 1, INF, T::N);
    id = Seq(&[(T::N, x::w), (T::N, Rep(&Alt(&[x::w, x::d]), 0, INF, T::N))]);
    key = Alt(&[S("if"), S("for")]);
    atom = Alt(&[x::num, x::id, Seq(&[(T::N, S("(")), (T::O, x::sum), (T::O, S(")"))])]);
    sum = Seq(&[(T::N, x::atom), (T::O, Rep(&Seq(&[(T::N, S("+")), (T::O, x::atom)]), 0, INF, T::O))]);
    call = Seq(&[(T::N, x::id), (T::N, S("(")), (T::N, Opt(&Seq(&[(T::N, x::sum), (T::M, Opt(&x::sum))]))), (T::N, S(")"))]);
    stmt = Alt(&[Seq(&[(T::N, x::key), (T::N, Neg(&x::id)), (T::O, x::sum)]), Seq(&[(T::N, x::id), (T::O, S("=")), (T::O, x::sum)])]);
    hush "_" = Seq(&[(T::N, x::id), (T::O, x::num)]);
    mixd = Alt(&[Seq(&[(T::N, x::hush), (T::N, Opt(&x::id))]), Seq(&[(T::N, x::_quiet), (T::N, x::w)])]);
    neg = Seq(&[(T::N, Neg(&x::num)), (T::N, x::w)]);
    many = Seq(&[(T::N, Rep(&Seq(&[(T::N, Rep(&x::w, 2, 2, T::N)), (T::N, x::d)]), 0, 2, T::N)), (T::N, Rep(&Alt(&[x::d, Seq(&[(T::N, x::w), (T::N, x::d)])]), 0, INF, T::N))]);
    opts = Seq(&[(T::N, Opt(&x::d)), (T::O, Opt(&x::w)), (T::N, Pos(&Alt(&[S("."), Eoi]))), (T::N, Opt(&S(".")))]);
}
// Rules inside trivia and predicates, stack operations, attempts that fail late.
suite! { mod odd = r##"
~ = (" " | note)*
^ = (" " | note)+
note   = "#" - (!end - pest::any)* - end
end    = "\n" | pest::eoi
a      = "a"
b      = "b"
ab     = a - b
tri    = a ~ b ^ a
trir   = a~{2..3} ~ b^*
look   = &ab - a - !(a | note) - pest::any
look2  = !(!ab - a) - (a | b)
look3  = !&(a - !b) - (a | ab)
late   = a - a - b | a - (a - "c" | b - "d") | note
push   = pest::stack::push(a | b) - pest::stack::push(a) - pest::stack::pop - pest::stack::pop
pop    = a - pest::stack::pop
slice  = pest::stack::push(a) - pest::stack::peek[0..2]
slicen = pest::stack::push(b)* - pest::stack::peek[-1..] - !pest::stack::peek[-2..]
dropp  = (pest::stack::push(ab) - "." | pest::stack::push(a) - b?) - pest::stack::drop - pest::stack::drop?
neglit = !"x" - pest::any - !("y" - b) - b
_sil   = _{ a - note? }
usesil = _sil - _sil? - end
deep   = x1 - b
x1     = x2
x2     = a | x3 - a
x3     = "c"
ins    = i"ab" - pest::newline - pest::ascii_digit
empty  = "" - (a - "")?
"##; opt = Some(Rep(&Alt(&[S(" "), x::note]), 0, INF, T::N)); man = Some(Rep(&Alt(&[S(" "), x::note]), 1, INF, T::N));
    note = Seq(&[(T::N, S("#")), (T::N, Rep(&Seq(&[(T::N, Neg(&x::end)), (T::N, Any)]), 0, INF, T::N)), (T::N, x::end)]);
    end = Alt(&[S("\n"), Eoi]);
    a = S("a");
    b = S("b");
    ab = Seq(&[(T::N, x::a), (T::N, x::b)]);
    tri = Seq(&[(T::N, x::a), (T::O, x::b), (T::M, x::a)]);
    trir = Seq(&[(T::N, Rep(&x::a, 2, 3, T::O)), (T::O, Rep(&x::b, 0, INF, T::M))]);
    look = Seq(&[(T::N, Pos(&x::ab)), (T::N, x::a), (T::N, Neg(&Alt(&[x::a, x::note]))), (T::N, Any)]);
    look2 = Seq(&[(T::N, Neg(&Seq(&[(T::N, Neg(&x::ab)), (T::N, x::a)]))), (T::N, Alt(&[x::a, x::b]))]);
    look3 = Seq(&[(T::N, Neg(&Pos(&Seq(&[(T::N, x::a), (T::N, Neg(&x::b))])))), (T::N, Alt(&[x::a, x::ab]))]);
    late = Alt(&[Seq(&[(T::N, x::a), (T::N, x::a), (T::N, x::b)]), Seq(&[(T::N, x::a), (T::N, Alt(&[Seq(&[(T::N, x::a), (T::N, S("c"))]), Seq(&[(T::N, x::b), (T::N, S("d"))])]))]), x::note]);
    push = Seq(&[(T::N, Push(&Alt(&[x::a, x::b]))), (T::N, Push(&x::a)), (T::N, Pop), (T::N, Pop)]);
    pop = Seq(&[(T::N, x::a), (T::N, Pop)]);
    slice = Seq(&[(T::N, Push(&x::a)), (T::N, Slice(0, Some(2)))]);
    slicen = Seq(&[(T::N, Rep(&Push(&x::b), 0, INF, T::N)), (T::N, Slice(-1, None)), (T::N, Neg(&Slice(-2, None)))]);
    dropp = Seq(&[(T::N, Alt(&[Seq(&[(T::N, Push(&x::ab)), (T::N, S("."))]), Seq(&[(T::N, Push(&x::a)), (T::N, Opt(&x::b))])])), (T::N, Drop), (T::N, Opt(&Drop))]);
    neglit = Seq(&[(T::N, Neg(&S("x"))), (T::N, Any), (T::N, Neg(&Seq(&[(T::N, S("y")), (T::N, x::b)]))), (T::N, x::b)]);
    _sil "_" = Seq(&[(T::N, x::a), (T::N, Opt(&x::note))]);
    usesil = Seq(&[(T::N, x::_sil), (T::N, Opt(&x::_sil)), (T::N, x::end)]);
    deep = Seq(&[(T::N, x::x1), (T::N, x::b)]);
    x1 = x::x2;
    x2 = Alt(&[x::a, Seq(&[(T::N, x::x3), (T::N, x::a)])]);
    x3 = S("c");
    ins = Seq(&[(T::N, I("ab")), (T::N, Nl), (T::N, C(|c| c >= '0' as u32 && c <= '9' as u32))]);
    empty = Seq(&[(T::N, S("")), (T::N, Opt(&Seq(&[(T::N, x::a), (T::N, S(""))])))]);
}
