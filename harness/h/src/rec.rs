// Rules that contain themselves, directly, through each other, and through every construct.
suite! { mod rec = r##"
~ = " " | note
note   = "/" - note* - "."
direct = "(" - direct? - ")"
right  = "1" - right | "0"
mida   = "a" ~ midb? ~ "b"
midb   = "<" - mida - ">" | midc
midc   = "x" - (mida | midb)?
_quiet = _{ "q" - loud? }
loud   = "(" - _quiet - ")" | "!"
reps   = "(" - reps* - ")"
reps1  = "b" | "(" - reps1~+ - ")"
bound  = "(" - bound{..2} - ")"
look   = &("a" - look?) - "a" - !("b" - look) - (look | "b")?
val    = arr | obj | "v"
arr    = "(" ~ (val ~ ("," ~ val)*)? ~ ")"
obj    = "<" ~ val ~ ">"
sum    = prod ~ ("+" ~ prod)*
prod   = atom ~ ("*" ~ atom)*
atom   = "v" | "(" ~ sum ~ ")"
sil    = "x" | _loop
_loop  = _{ "(" - _loop - ")" | "!" - sil }
pushed = pest::stack::push("a" | "b") - pushed? - pest::stack::pop
half   = "(" - half - (")" | ".") | "x"
se     = selff
selff  = "s" - (se | "t")
many   = ("a" - many? | "b" - many - many?) - "."?
call   = wrap(call) | "x"
wrap(w) = "<" - w - ">"
"##; opt = Some(Alt(&[S(" "), x::note])); man = None;
    note = Seq(&[(T::N, S("/")), (T::N, Rep(&x::note, 0, INF, T::N)), (T::N, S("."))]);
    direct = Seq(&[(T::N, S("(")), (T::N, Opt(&x::direct)), (T::N, S(")"))]);
    right = Alt(&[Seq(&[(T::N, S("1")), (T::N, x::right)]), S("0")]);
    mida = Seq(&[(T::N, S("a")), (T::O, Opt(&x::midb)), (T::O, S("b"))]);
    midb = Alt(&[Seq(&[(T::N, S("<")), (T::N, x::mida), (T::N, S(">"))]), x::midc]);
    midc = Seq(&[(T::N, S("x")), (T::N, Opt(&Alt(&[x::mida, x::midb])))]);
    _quiet "_" = Seq(&[(T::N, S("q")), (T::N, Opt(&x::loud))]);
    loud = Alt(&[Seq(&[(T::N, S("(")), (T::N, x::_quiet), (T::N, S(")"))]), S("!")]);
    reps = Seq(&[(T::N, S("(")), (T::N, Rep(&x::reps, 0, INF, T::N)), (T::N, S(")"))]);
    reps1 = Alt(&[S("b"), Seq(&[(T::N, S("(")), (T::N, Rep(&x::reps1, 1, INF, T::O)), (T::N, S(")"))])]);
    bound = Seq(&[(T::N, S("(")), (T::N, Rep(&x::bound, 0, 2, T::N)), (T::N, S(")"))]);
    look = Seq(&[(T::N, Pos(&Seq(&[(T::N, S("a")), (T::N, Opt(&x::look))]))), (T::N, S("a")), (T::N, Neg(&Seq(&[(T::N, S("b")), (T::N, x::look)]))), (T::N, Opt(&Alt(&[x::look, S("b")])))]);
    val = Alt(&[x::arr, x::obj, S("v")]);
    arr = Seq(&[(T::N, S("(")), (T::O, Opt(&Seq(&[(T::N, x::val), (T::O, Rep(&Seq(&[(T::N, S(",")), (T::O, x::val)]), 0, INF, T::N))]))), (T::O, S(")"))]);
    obj = Seq(&[(T::N, S("<")), (T::O, x::val), (T::O, S(">"))]);
    sum = Seq(&[(T::N, x::prod), (T::O, Rep(&Seq(&[(T::N, S("+")), (T::O, x::prod)]), 0, INF, T::N))]);
    prod = Seq(&[(T::N, x::atom), (T::O, Rep(&Seq(&[(T::N, S("*")), (T::O, x::atom)]), 0, INF, T::N))]);
    atom = Alt(&[S("v"), Seq(&[(T::N, S("(")), (T::O, x::sum), (T::O, S(")"))])]);
    sil = Alt(&[S("x"), x::_loop]);
    _loop "_" = Alt(&[Seq(&[(T::N, S("(")), (T::N, x::_loop), (T::N, S(")"))]), Seq(&[(T::N, S("!")), (T::N, x::sil)])]);
    pushed = Seq(&[(T::N, Push(&Alt(&[S("a"), S("b")]))), (T::N, Opt(&x::pushed)), (T::N, Pop)]);
    half = Alt(&[Seq(&[(T::N, S("(")), (T::N, x::half), (T::N, Alt(&[S(")"), S(".")]))]), S("x")]);
    se = x::selff;
    selff = Seq(&[(T::N, S("s")), (T::N, Alt(&[x::se, S("t")]))]);
    many = Seq(&[(T::N, Alt(&[Seq(&[(T::N, S("a")), (T::N, Opt(&x::many))]), Seq(&[(T::N, S("b")), (T::N, x::many), (T::N, Opt(&x::many))])])), (T::N, Opt(&S(".")))]);
    call = Alt(&[Inst(Rule::wrap as u32, false, &Seq(&[(T::N, S("<")), (T::N, x::call), (T::N, S(">"))])), S("x")]);
}
