// Rules for accessors.
suite! { mod acc = r##"
~ = " "
^ = "_"
a = "a"
b = "b" | "B"
c = "c"
plain = a - b - c
twice = a - b - a
spaced = a ~ b ^ a ~ "."? ~ b
op = a? - b - a?
opseq = (a - b)? - c
opop = ((a - c)? - b)?
opdeep = (((a?) - c?)? - ".")? - b?
alts = a | b | c
altseq = a - b | b - a | c - a - a
altop = (a? - "." | b) - (c | a)?
many = a - "." | "1" | b | "2" | c | "3" | "4" | a - "," | a
wide = ("1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9" | a | b | c | "+" | "." | a - a | b - b) - a?
rep = a - ("," - a)*
reps = (a | b)*
once = (a - b?)+
bound = (a - b?){1..2} - c?
exact = a{2}
least = (b | a){1..}
most = a{..2} - b
deep = ((a - ",")* - ".")+
oprep = (a+ - ".")? - b*
repop = ("," - a?)*
repalt = (a - b | b)* - c
repsp = a~+ - (b ~ a)^*
look = &a - a - b?
lookalt = &(a | b) - (b | a)
neg = !b - a? - b?
lookrep = &(a*) - a - b?
in1 = b - c?
in2 = a - (in1 | b) - in1?
par = "(" - par? - ")" - a?
rec = a - (b - rec)? - c?
loop1 = "(" - loop2* - ")"
loop2 = a | loop1 | b
lists = "(" ~ (a ~ ("," ~ a)~*)? ~ ")"
_quiet = _{ a - b }
hush = _quiet - a - _quiet?
tri = a - a - a - (a - a)? - a*
six = a - (b - (c? - (a - b)))
left = ((a - b) - c?) - a
mixed = (a - b)* - (a | c - (b | a)?)? - b
st = pest::stack::push(a | b) - c? - pest::stack::pop - a?
crowd = a - b? - a - b? - a - b? - a - b? - a - b? - a - b? - a - b? - a - b? - a - b? - a - b? - a - b? - a - b? - a - b? - a - b? - a - (b | a)*
nested = ((((((((a?) - c)? - c)? - c)? - c)? - c)? - c)? - b)? - c?
lots = (((((a - ",")* - ".")* - "1")* - "2")* - "3")* - b?
"##; opt = Some(S(" ")); man = Some(S("_"));
    a = S("a");
    b = Alt(&[S("b"), S("B")]);
    c = S("c");
    plain = Seq(&[(T::N, x::a), (T::N, x::b), (T::N, x::c)]);
    twice = Seq(&[(T::N, x::a), (T::N, x::b), (T::N, x::a)]);
    spaced = Seq(&[(T::N, x::a), (T::O, x::b), (T::M, x::a), (T::O, Opt(&S("."))), (T::O, x::b)]);
    op = Seq(&[(T::N, Opt(&x::a)), (T::N, x::b), (T::N, Opt(&x::a))]);
    opseq = Seq(&[(T::N, Opt(&Seq(&[(T::N, x::a), (T::N, x::b)]))), (T::N, x::c)]);
    opop = Opt(&Seq(&[(T::N, Opt(&Seq(&[(T::N, x::a), (T::N, x::c)]))), (T::N, x::b)]));
    opdeep = Seq(&[(T::N, Opt(&Seq(&[(T::N, Opt(&Seq(&[(T::N, Opt(&x::a)), (T::N, Opt(&x::c))]))), (T::N, S("."))]))), (T::N, Opt(&x::b))]);
    alts = Alt(&[x::a, x::b, x::c]);
    altseq = Alt(&[Seq(&[(T::N, x::a), (T::N, x::b)]), Seq(&[(T::N, x::b), (T::N, x::a)]), Seq(&[(T::N, x::c), (T::N, x::a), (T::N, x::a)])]);
    altop = Seq(&[(T::N, Alt(&[Seq(&[(T::N, Opt(&x::a)), (T::N, S("."))]), x::b])), (T::N, Opt(&Alt(&[x::c, x::a])))]);
    many = Alt(&[Seq(&[(T::N, x::a), (T::N, S("."))]), S("1"), x::b, S("2"), x::c, S("3"), S("4"), Seq(&[(T::N, x::a), (T::N, S(","))]), x::a]);
    wide = Seq(&[(T::N, Alt(&[S("1"), S("2"), S("3"), S("4"), S("5"), S("6"), S("7"), S("8"), S("9"), x::a, x::b, x::c, S("+"), S("."), Seq(&[(T::N, x::a), (T::N, x::a)]), Seq(&[(T::N, x::b), (T::N, x::b)])])), (T::N, Opt(&x::a))]);
    rep = Seq(&[(T::N, x::a), (T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N))]);
    reps = Rep(&Alt(&[x::a, x::b]), 0, INF, T::N);
    once = Rep(&Seq(&[(T::N, x::a), (T::N, Opt(&x::b))]), 1, INF, T::N);
    bound = Seq(&[(T::N, Rep(&Seq(&[(T::N, x::a), (T::N, Opt(&x::b))]), 1, 2, T::N)), (T::N, Opt(&x::c))]);
    exact = Rep(&x::a, 2, 2, T::N);
    least = Rep(&Alt(&[x::b, x::a]), 1, INF, T::N);
    most = Seq(&[(T::N, Rep(&x::a, 0, 2, T::N)), (T::N, x::b)]);
    deep = Rep(&Seq(&[(T::N, Rep(&Seq(&[(T::N, x::a), (T::N, S(","))]), 0, INF, T::N)), (T::N, S("."))]), 1, INF, T::N);
    oprep = Seq(&[(T::N, Opt(&Seq(&[(T::N, Rep(&x::a, 1, INF, T::N)), (T::N, S("."))]))), (T::N, Rep(&x::b, 0, INF, T::N))]);
    repop = Rep(&Seq(&[(T::N, S(",")), (T::N, Opt(&x::a))]), 0, INF, T::N);
    repalt = Seq(&[(T::N, Rep(&Alt(&[Seq(&[(T::N, x::a), (T::N, x::b)]), x::b]), 0, INF, T::N)), (T::N, x::c)]);
    repsp = Seq(&[(T::N, Rep(&x::a, 1, INF, T::O)), (T::N, Rep(&Seq(&[(T::N, x::b), (T::O, x::a)]), 0, INF, T::M))]);
    look = Seq(&[(T::N, Pos(&x::a)), (T::N, x::a), (T::N, Opt(&x::b))]);
    lookalt = Seq(&[(T::N, Pos(&Alt(&[x::a, x::b]))), (T::N, Alt(&[x::b, x::a]))]);
    neg = Seq(&[(T::N, Neg(&x::b)), (T::N, Opt(&x::a)), (T::N, Opt(&x::b))]);
    lookrep = Seq(&[(T::N, Pos(&Rep(&x::a, 0, INF, T::N))), (T::N, x::a), (T::N, Opt(&x::b))]);
    in1 = Seq(&[(T::N, x::b), (T::N, Opt(&x::c))]);
    in2 = Seq(&[(T::N, x::a), (T::N, Alt(&[x::in1, x::b])), (T::N, Opt(&x::in1))]);
    par = Seq(&[(T::N, S("(")), (T::N, Opt(&x::par)), (T::N, S(")")), (T::N, Opt(&x::a))]);
    rec = Seq(&[(T::N, x::a), (T::N, Opt(&Seq(&[(T::N, x::b), (T::N, x::rec)]))), (T::N, Opt(&x::c))]);
    loop1 = Seq(&[(T::N, S("(")), (T::N, Rep(&x::loop2, 0, INF, T::N)), (T::N, S(")"))]);
    loop2 = Alt(&[x::a, x::loop1, x::b]);
    lists = Seq(&[(T::N, S("(")), (T::O, Opt(&Seq(&[(T::N, x::a), (T::O, Rep(&Seq(&[(T::N, S(",")), (T::O, x::a)]), 0, INF, T::O))]))), (T::O, S(")"))]);
    _quiet "_" = Seq(&[(T::N, x::a), (T::N, x::b)]);
    hush = Seq(&[(T::N, x::_quiet), (T::N, x::a), (T::N, Opt(&x::_quiet))]);
    tri = Seq(&[(T::N, x::a), (T::N, x::a), (T::N, x::a), (T::N, Opt(&Seq(&[(T::N, x::a), (T::N, x::a)]))), (T::N, Rep(&x::a, 0, INF, T::N))]);
    six = Seq(&[(T::N, x::a), (T::N, x::b), (T::N, Opt(&x::c)), (T::N, x::a), (T::N, x::b)]);
    left = Seq(&[(T::N, x::a), (T::N, x::b), (T::N, Opt(&x::c)), (T::N, x::a)]);
    mixed = Seq(&[(T::N, Rep(&Seq(&[(T::N, x::a), (T::N, x::b)]), 0, INF, T::N)), (T::N, Opt(&Alt(&[x::a, Seq(&[(T::N, x::c), (T::N, Opt(&Alt(&[x::b, x::a])))])]))), (T::N, x::b)]);
    st = Seq(&[(T::N, Push(&Alt(&[x::a, x::b]))), (T::N, Opt(&x::c)), (T::N, Pop), (T::N, Opt(&x::a))]);
    crowd = Seq(&[(T::N, x::a), (T::N, Opt(&x::b)), (T::N, x::a), (T::N, Opt(&x::b)), (T::N, x::a), (T::N, Opt(&x::b)), (T::N, x::a), (T::N, Opt(&x::b)), (T::N, x::a), (T::N, Opt(&x::b)), (T::N, x::a), (T::N, Opt(&x::b)), (T::N, x::a), (T::N, Opt(&x::b)), (T::N, x::a), (T::N, Opt(&x::b)), (T::N, x::a), (T::N, Opt(&x::b)), (T::N, x::a), (T::N, Opt(&x::b)), (T::N, x::a), (T::N, Opt(&x::b)), (T::N, x::a), (T::N, Opt(&x::b)), (T::N, x::a), (T::N, Opt(&x::b)), (T::N, x::a), (T::N, Opt(&x::b)), (T::N, x::a), (T::N, Rep(&Alt(&[x::b, x::a]), 0, INF, T::N))]);
    nested = Seq(&[(T::N, Opt(&Seq(&[(T::N, Opt(&Seq(&[(T::N, Opt(&Seq(&[(T::N, Opt(&Seq(&[(T::N, Opt(&Seq(&[(T::N, Opt(&Seq(&[(T::N, Opt(&Seq(&[(T::N, Opt(&x::a)), (T::N, x::c)]))), (T::N, x::c)]))), (T::N, x::c)]))), (T::N, x::c)]))), (T::N, x::c)]))), (T::N, x::c)]))), (T::N, x::b)]))), (T::N, Opt(&x::c))]);
    lots = Seq(&[(T::N, Rep(&Seq(&[(T::N, Rep(&Seq(&[(T::N, Rep(&Seq(&[(T::N, Rep(&Seq(&[(T::N, Rep(&Seq(&[(T::N, x::a), (T::N, S(","))]), 0, INF, T::N)), (T::N, S("."))]), 0, INF, T::N)), (T::N, S("1"))]), 0, INF, T::N)), (T::N, S("2"))]), 0, INF, T::N)), (T::N, S("3"))]), 0, INF, T::N)), (T::N, Opt(&x::b))]);
}
/// Every accessor of every rule.
macro_rules! accessors { ($($r:ident: $($a:ident)*;)*) => {
    fn accessors(k: usize, s: &'static str) {
        $(if k == acc::Ix::$r as usize {
            let mut m = M::new(&acc::G, s);
            let Ok((_, t)) = <acc::rules::$r<'static> as TypedNode<'static, acc::Rule>>::try_parse_partial(s) else { cover(0); return };
            cover(1);
            $({
                let mut want = Vec::new();
                let is = |e: &E| match e { Rule(j) => *j == acc::Ix::$a as usize, _ => false };
                let end = m.parts(&acc::G.rules[acc::Ix::$r as usize].2, 0, &is, &mut want);
                ck(end == Some(t.span.end()), "the rule ends elsewhere than the grammar says");
                given(&t.$a(), &want);
            })*
            return
        })*
        fail("a rule without list of accessors")
    }
} }
accessors! {
    plain: a b c; twice: a b; spaced: a b; op: a b; opseq: a b c; opop: a b c; opdeep: a b c; alts: a b c; altseq: a b c; altop: a b c; many: a b c; wide: a b c;
    rep: a; reps: a b; once: a b; bound: a b c; exact: a; least: a b; most: a b; deep: a; oprep: a b; repop: a; repalt: a b c; repsp: a b;
    look: a b; lookalt: a b; neg: a b; lookrep: a b; in1: b c; in2: a b in1; par: par a; rec: a b c rec; loop1: loop2; loop2: a b loop1; lists: a;
    hush: a _quiet; tri: a; six: a b c; left: a b c; mixed: a b c; st: c a; crowd: a b; nested: a b c; lots: a b;
}
