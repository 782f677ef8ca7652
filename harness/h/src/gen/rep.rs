// Written by bin/mkgen.py.
suite! { mod rep0 = r##"
~ = " "
^ = "_"
r0 = "c"
_r1 = _{ ('b'..'b')? }
r2 = pest::any | r0
r3 = "c"* | (pest::any){1}
r4 = ("cb"? - r3? - _r1 ~ "c" - "a" - _r1? ~ "a" - "b" ~ "c"? ~ r3? - "c"? - "a"? - r3 - "." ~ r3? ^ "b"?){..2}
r5 = (r2 - r2? - (pest::any)? ~ _r1? - "c"? - "b"? - r4? - "a"?){1..2}
r6 = "a"
r7 = ("a" - "b")?
r8 = (r6 | r2 | ".b")~*
_r9 = _{ (r7 | "c" | "c" | "aa") - ('a'..'a')+ - !(r6) }
_r10 = _{ (r6~{1..3})~+ }
r11 = ((_r10 | "a") | "."~{1..3}) - ((r5 | r2) | _r10? | 'c'..'d' | "c" | r2 | r4 | ".")
r12 = (pest::any){2}
r13 = ("c" ~ "c" ~ "a")*
r14 = "a"
r15 = (_r1 - _r10 - "." - 'b'..'d'){2..} | ("b" - ("c" | ".") - "c"~{..2} ^ r3?) | ((r12 - "b") - r0^{3} - "."* ~ (pest::any - "."))
r16 = (r3 | r6 | ".b")?
_r17 = _{ ("a"?)? }
r18 = "c"~{1..3} - (pest::any)^{1} - ("." | r3)
r19 = ('b'..'c'){1..}
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S("c");
    _r1 "_" = Opt(&R('b', 'b'));
    r2 = Alt(&[Any, x::r0]);
    r3 = Alt(&[Rep(&S("c"), 0, INF, T::N), Rep(&Any, 1, 1, T::N)]);
    r4 = Rep(&Seq(&[(T::M, Opt(&S("cb"))), (T::N, Opt(&x::r3)), (T::N, x::_r1), (T::O, S("c")), (T::N, S("a")), (T::N, Opt(&x::_r1)), (T::O, S("a")), (T::N, S("b")), (T::O, Opt(&S("c"))), (T::O, Opt(&x::r3)), (T::N, Opt(&S("c"))), (T::N, Opt(&S("a"))), (T::N, x::r3), (T::N, S(".")), (T::O, Opt(&x::r3)), (T::M, Opt(&S("b")))]), 0, 2, T::N);
    r5 = Rep(&Seq(&[(T::N, x::r2), (T::N, Opt(&x::r2)), (T::N, Opt(&Any)), (T::O, Opt(&x::_r1)), (T::N, Opt(&S("c"))), (T::N, Opt(&S("b"))), (T::N, Opt(&x::r4)), (T::N, Opt(&S("a")))]), 1, 2, T::N);
    r6 = S("a");
    r7 = Opt(&Seq(&[(T::M, S("a")), (T::N, S("b"))]));
    r8 = Rep(&Alt(&[x::r6, x::r2, S(".b")]), 0, INF, T::O);
    _r9 "_" = Seq(&[(T::M, Alt(&[x::r7, S("c"), S("c"), S("aa")])), (T::N, Rep(&R('a', 'a'), 1, INF, T::N)), (T::N, Neg(&x::r6))]);
    _r10 "_" = Rep(&Rep(&x::r6, 1, 3, T::O), 1, INF, T::O);
    r11 = Seq(&[(T::N, Alt(&[Alt(&[x::_r10, S("a")]), Rep(&S("."), 1, 3, T::O)])), (T::N, Alt(&[Alt(&[x::r5, x::r2]), Opt(&x::_r10), R('c', 'd'), S("c"), x::r2, x::r4, S(".")]))]);
    r12 = Rep(&Any, 2, 2, T::N);
    r13 = Rep(&Seq(&[(T::O, S("c")), (T::O, S("c")), (T::O, S("a"))]), 0, INF, T::N);
    r14 = S("a");
    r15 = Alt(&[Rep(&Seq(&[(T::M, x::_r1), (T::N, x::_r10), (T::N, S(".")), (T::N, R('b', 'd'))]), 2, INF, T::N), Seq(&[(T::N, S("b")), (T::N, Alt(&[S("c"), S(".")])), (T::N, Rep(&S("c"), 0, 2, T::O)), (T::M, Opt(&x::r3))]), Seq(&[(T::M, Seq(&[(T::N, x::r12), (T::N, S("b"))])), (T::N, Rep(&x::r0, 3, 3, T::M)), (T::N, Rep(&S("."), 0, INF, T::N)), (T::O, Seq(&[(T::O, Any), (T::N, S("."))]))])]);
    r16 = Opt(&Alt(&[x::r3, x::r6, S(".b")]));
    _r17 "_" = Opt(&Opt(&S("a")));
    r18 = Seq(&[(T::O, Rep(&S("c"), 1, 3, T::O)), (T::N, Rep(&Any, 1, 1, T::M)), (T::N, Alt(&[S("."), x::r3]))]);
    r19 = Rep(&R('b', 'c'), 1, INF, T::N);
}
suite! { mod rep1 = r##"
~ = " "
^ = "_"
r0 = "."
r1 = r0^+
r2 = "."~{1..3}
_r3 = _{ r2 }
_r4 = _{ r2* }
r5 = _r3
r6 = r0
_r7 = _{ ("."^{1})+ }
r8 = "c"~{1..}
r9 = (("b" ^ r8 - r0) | ('b'..'c'){1..3} | ("c" | 'a'..'d' | r8)) | ("a" | 'b'..'c' | pest::any | "ab"){..2}
r10 = (r5 | "b") | "c"{1..2}
_r11 = _{ _r7 }
r12 = ("."{1..2})?
_r13 = _{ !(r10) | r8~{3} }
r14 = ("c"{0..1})?
_r15 = _{ (('c'..'d')~* | "a"^{3} | ("c" - 'b'..'c') | "c"{2}) - (r5{1..})~{..2} }
r16 = ((r0~{2})^{1..3})~*
r17 = ('b'..'b' | "c.") ~ r8 ^ "."~{1..}
r18 = ("c" | "a")~+
r19 = (pest::any | _r7)^{1..2}
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S(".");
    r1 = Rep(&x::r0, 1, INF, T::M);
    r2 = Rep(&S("."), 1, 3, T::O);
    _r3 "_" = x::r2;
    _r4 "_" = Rep(&x::r2, 0, INF, T::N);
    r5 = x::_r3;
    r6 = x::r0;
    _r7 "_" = Rep(&Rep(&S("."), 1, 1, T::M), 1, INF, T::N);
    r8 = Rep(&S("c"), 1, INF, T::O);
    r9 = Alt(&[Alt(&[Seq(&[(T::N, S("b")), (T::M, x::r8), (T::N, x::r0)]), Rep(&R('b', 'c'), 1, 3, T::N), Alt(&[S("c"), R('a', 'd'), x::r8])]), Rep(&Alt(&[S("a"), R('b', 'c'), Any, S("ab")]), 0, 2, T::N)]);
    r10 = Alt(&[Alt(&[x::r5, S("b")]), Rep(&S("c"), 1, 2, T::N)]);
    _r11 "_" = x::_r7;
    r12 = Opt(&Rep(&S("."), 1, 2, T::N));
    _r13 "_" = Alt(&[Neg(&x::r10), Rep(&x::r8, 3, 3, T::O)]);
    r14 = Opt(&Rep(&S("c"), 0, 1, T::N));
    _r15 "_" = Seq(&[(T::N, Alt(&[Rep(&R('c', 'd'), 0, INF, T::O), Rep(&S("a"), 3, 3, T::M), Seq(&[(T::O, S("c")), (T::N, R('b', 'c'))]), Rep(&S("c"), 2, 2, T::N)])), (T::N, Rep(&Rep(&x::r5, 1, INF, T::N), 0, 2, T::O))]);
    r16 = Rep(&Rep(&Rep(&x::r0, 2, 2, T::O), 1, 3, T::M), 0, INF, T::O);
    r17 = Seq(&[(T::O, Alt(&[R('b', 'b'), S("c.")])), (T::O, x::r8), (T::M, Rep(&S("."), 1, INF, T::O))]);
    r18 = Rep(&Alt(&[S("c"), S("a")]), 1, INF, T::O);
    r19 = Rep(&Alt(&[Any, x::_r7]), 1, 2, T::M);
}
suite! { mod rep2 = r##"
~ = " "
^ = "_"
r0 = pest::any
r1 = "ba"?
r2 = "a" ~ 'b'..'c' ^ "aa"
r3 = ("b"+){..2}
r4 = (r3 - ".b"){0..1}
_r5 = _{ ((r4 ~ "a") - ("c" | "." | "b")){..2} }
r6 = (("c"? - "."? ~ (pest::any)? ^ _r5? ~ "c"? - "a"? ^ "a"? ^ "b"? ~ r3? ~ _r5 - "."? - "." ~ r2 ~ "." ~ r0 - "b"? ^ "a"? - r0 ~ "."? - "b"?)^{3})~+
r7 = ("a"{1..3}){..}
_r8 = _{ ("a"^{3})? }
r9 = (('b'..'c')*)?
r10 = ((r6 ^ "." - "c"){1})*
r11 = (("c."~{1..2})~{2..}){1..3}
r12 = "c"{0..1} | !(r3)
r13 = ("b"~+)^+
r14 = (("." | "c") | "a"? | "a" | (r9 | r6) | (pest::any){1} | (pest::any)^{..2} | "aa" | (r6 | "c") | "a" | r11 | "a" | ('a'..'c')~{1..3} | "c"? | 'b'..'b' | ("c" - "a") | r9 | "bb") | r0 | r1? | ("ba"? - ('c'..'d')? ~ ('c'..'c')? - _r5? ^ "a." - "c"? - ('a'..'d')?) | !('b'..'b') | ('a'..'d' - ".") | "." | ".c"+
_r15 = _{ "c"~{1..2} | (r9? ~ "a"? ~ r10? - "."? - r4 - 'a'..'a' ^ 'a'..'b' - "a"? ^ r0? ~ r14) }
_r16 = _{ ".."{1..2} ~ ('a'..'c')^{2} ^ (r10 ~ r11 ~ "b" - pest::any) }
r17 = (("a" | r11)+)^{1..}
r18 = "b"?
r19 = ("c" ^ "c" - _r5) | "a"{2}
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = Any;
    r1 = Opt(&S("ba"));
    r2 = Seq(&[(T::O, S("a")), (T::O, R('b', 'c')), (T::M, S("aa"))]);
    r3 = Rep(&Rep(&S("b"), 1, INF, T::N), 0, 2, T::N);
    r4 = Rep(&Seq(&[(T::M, x::r3), (T::N, S(".b"))]), 0, 1, T::N);
    _r5 "_" = Rep(&Seq(&[(T::N, Seq(&[(T::N, x::r4), (T::O, S("a"))])), (T::N, Alt(&[S("c"), S("."), S("b")]))]), 0, 2, T::N);
    r6 = Rep(&Rep(&Seq(&[(T::M, Opt(&S("c"))), (T::N, Opt(&S("."))), (T::O, Opt(&Any)), (T::M, Opt(&x::_r5)), (T::O, Opt(&S("c"))), (T::N, Opt(&S("a"))), (T::M, Opt(&S("a"))), (T::M, Opt(&S("b"))), (T::O, Opt(&x::r3)), (T::O, x::_r5), (T::N, Opt(&S("."))), (T::N, S(".")), (T::O, x::r2), (T::O, S(".")), (T::O, x::r0), (T::N, Opt(&S("b"))), (T::M, Opt(&S("a"))), (T::N, x::r0), (T::O, Opt(&S("."))), (T::N, Opt(&S("b")))]), 3, 3, T::M), 1, INF, T::O);
    r7 = Rep(&Rep(&S("a"), 1, 3, T::N), 0, INF, T::N);
    _r8 "_" = Opt(&Rep(&S("a"), 3, 3, T::M));
    r9 = Opt(&Rep(&R('b', 'c'), 0, INF, T::N));
    r10 = Rep(&Rep(&Seq(&[(T::N, x::r6), (T::M, S(".")), (T::N, S("c"))]), 1, 1, T::N), 0, INF, T::N);
    r11 = Rep(&Rep(&Rep(&S("c."), 1, 2, T::O), 2, INF, T::O), 1, 3, T::N);
    r12 = Alt(&[Rep(&S("c"), 0, 1, T::N), Neg(&x::r3)]);
    r13 = Rep(&Rep(&S("b"), 1, INF, T::O), 1, INF, T::M);
    r14 = Alt(&[Alt(&[Alt(&[S("."), S("c")]), Opt(&S("a")), S("a"), Alt(&[x::r9, x::r6]), Rep(&Any, 1, 1, T::N), Rep(&Any, 0, 2, T::M), S("aa"), Alt(&[x::r6, S("c")]), S("a"), x::r11, S("a"), Rep(&R('a', 'c'), 1, 3, T::O), Opt(&S("c")), R('b', 'b'), Seq(&[(T::O, S("c")), (T::N, S("a"))]), x::r9, S("bb")]), x::r0, Opt(&x::r1), Seq(&[(T::N, Opt(&S("ba"))), (T::N, Opt(&R('c', 'd'))), (T::O, Opt(&R('c', 'c'))), (T::N, Opt(&x::_r5)), (T::M, S("a.")), (T::N, Opt(&S("c"))), (T::N, Opt(&R('a', 'd')))]), Neg(&R('b', 'b')), Seq(&[(T::O, R('a', 'd')), (T::N, S("."))]), S("."), Rep(&S(".c"), 1, INF, T::N)]);
    _r15 "_" = Alt(&[Rep(&S("c"), 1, 2, T::O), Seq(&[(T::N, Opt(&x::r9)), (T::O, Opt(&S("a"))), (T::O, Opt(&x::r10)), (T::N, Opt(&S("."))), (T::N, x::r4), (T::N, R('a', 'a')), (T::M, R('a', 'b')), (T::N, Opt(&S("a"))), (T::M, Opt(&x::r0)), (T::O, x::r14)])]);
    _r16 "_" = Seq(&[(T::N, Rep(&S(".."), 1, 2, T::N)), (T::O, Rep(&R('a', 'c'), 2, 2, T::M)), (T::M, Seq(&[(T::O, x::r10), (T::O, x::r11), (T::O, S("b")), (T::N, Any)]))]);
    r17 = Rep(&Rep(&Alt(&[S("a"), x::r11]), 1, INF, T::N), 1, INF, T::M);
    r18 = Opt(&S("b"));
    r19 = Alt(&[Seq(&[(T::N, S("c")), (T::M, S("c")), (T::N, x::_r5)]), Rep(&S("a"), 2, 2, T::N)]);
}
suite! { mod rep3 = r##"
~ = " "
^ = "_"
r0 = "b"
r1 = (pest::any)~{..}
_r2 = _{ "a" | 'a'..'d' }
r3 = (r0{1..2}){2}
_r4 = _{ (_r2^{1..3})^{1..} }
r5 = (_r2~+){0..1}
r6 = (r3+){1}
r7 = (((pest::any){1..})+){2}
r8 = "b"{3}
r9 = "bb" - r6{1} ^ (r8 - "b" ^ r5 ~ pest::any)? ~ ("c" ~ _r4 - 'b'..'c')*
r10 = ("c" ~ r7 ~ "c" ^ r6)~{2..}
r11 = "b"
r12 = "c"{2}
_r13 = _{ (r12 - "a")? }
r14 = ("a"+)?
_r15 = _{ r3 | "aa"? | r5 }
r16 = ((_r13 | r5 | "c") - (pest::any){2} ~ ("b" | r11 | r12)) - (('a'..'b')^{0..1} | r6* | "c"~+ | (r7 - "c" ~ "." ~ "b"))
_r17 = _{ "." }
_r18 = _{ (_r13? - "aa" - _r15? ~ "."? - "b"?) ^ (('b'..'c'){1..})^* - ("."{1..3})~{1..} }
r19 = "b"^{..}
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S("b");
    r1 = Rep(&Any, 0, INF, T::O);
    _r2 "_" = Alt(&[S("a"), R('a', 'd')]);
    r3 = Rep(&Rep(&x::r0, 1, 2, T::N), 2, 2, T::N);
    _r4 "_" = Rep(&Rep(&x::_r2, 1, 3, T::M), 1, INF, T::M);
    r5 = Rep(&Rep(&x::_r2, 1, INF, T::O), 0, 1, T::N);
    r6 = Rep(&Rep(&x::r3, 1, INF, T::N), 1, 1, T::N);
    r7 = Rep(&Rep(&Rep(&Any, 1, INF, T::N), 1, INF, T::N), 2, 2, T::N);
    r8 = Rep(&S("b"), 3, 3, T::N);
    r9 = Seq(&[(T::O, S("bb")), (T::N, Rep(&x::r6, 1, 1, T::N)), (T::M, Opt(&Seq(&[(T::O, x::r8), (T::N, S("b")), (T::M, x::r5), (T::O, Any)]))), (T::O, Rep(&Seq(&[(T::N, S("c")), (T::O, x::_r4), (T::N, R('b', 'c'))]), 0, INF, T::N))]);
    r10 = Rep(&Seq(&[(T::N, S("c")), (T::O, x::r7), (T::O, S("c")), (T::M, x::r6)]), 2, INF, T::O);
    r11 = S("b");
    r12 = Rep(&S("c"), 2, 2, T::N);
    _r13 "_" = Opt(&Seq(&[(T::O, x::r12), (T::N, S("a"))]));
    r14 = Opt(&Rep(&S("a"), 1, INF, T::N));
    _r15 "_" = Alt(&[x::r3, Opt(&S("aa")), x::r5]);
    r16 = Seq(&[(T::N, Seq(&[(T::N, Alt(&[x::_r13, x::r5, S("c")])), (T::N, Rep(&Any, 2, 2, T::N)), (T::O, Alt(&[S("b"), x::r11, x::r12]))])), (T::N, Alt(&[Rep(&R('a', 'b'), 0, 1, T::M), Rep(&x::r6, 0, INF, T::N), Rep(&S("c"), 1, INF, T::O), Seq(&[(T::M, x::r7), (T::N, S("c")), (T::O, S(".")), (T::O, S("b"))])]))]);
    _r17 "_" = S(".");
    _r18 "_" = Seq(&[(T::M, Seq(&[(T::N, Opt(&x::_r13)), (T::N, S("aa")), (T::N, Opt(&x::_r15)), (T::O, Opt(&S("."))), (T::N, Opt(&S("b")))])), (T::M, Rep(&Rep(&R('b', 'c'), 1, INF, T::N), 0, INF, T::M)), (T::N, Rep(&Rep(&S("."), 1, 3, T::N), 1, INF, T::O))]);
    r19 = Rep(&S("b"), 0, INF, T::M);
}
suite! { mod rep4 = r##"
~ = " "
^ = "_"
r0 = "."
r1 = "c"~{1..2}
_r2 = _{ "c"^{..2} }
r3 = r0~{..2} ^ (".a" | "b" | "c") - ("c" | "a.")
r4 = ("aa" - "." - "cb")+
r5 = ("b" - "c")+
r6 = ("c" ~ r4 ~ "b")~{1}
r7 = 'a'..'a'
_r8 = _{ "c."~{..} | "c"{0..1} | "b"{1..3} | ("." | "a") }
_r9 = _{ "." }
r10 = ((r7+){1..3}){2}
r11 = ('b'..'c' ~ "a" - "bb" - 'a'..'a') | (pest::any)+ | "a"{1} | "c"{..} | ("b" - r10 ~ 'a'..'b' - pest::any) | r0 | "c" | "c"? | 'b'..'d' | r1~{2} | ".c" | "b" | ("b" ^ "c") | (_r2 ^ _r8) | r0 | (_r9 ~ r7 - r10 - ".") | "a."~{1..} | "a"{1..3} | "b" | _r8
r12 = ((pest::any | ".") - r10) | r4{..2}
r13 = r1+ - "c."^* ~ "."+
r14 = (r6^{3})~{..}
r15 = (('a'..'c')?)?
r16 = !(!("c")) | _r8 | (r5~+)? | ("b"^{1..2} ~ pest::any)
r17 = "a"{1..3} - "ca"~{2}
r18 = ("c" ^ _r2 - "b" - _r9) | "b"{1..2} | _r9? | (r1 ~ r1 ~ "c")
_r19 = _{ ((r17 - r0) | r18)? }
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S(".");
    r1 = Rep(&S("c"), 1, 2, T::O);
    _r2 "_" = Rep(&S("c"), 0, 2, T::M);
    r3 = Seq(&[(T::O, Rep(&x::r0, 0, 2, T::O)), (T::M, Alt(&[S(".a"), S("b"), S("c")])), (T::N, Alt(&[S("c"), S("a.")]))]);
    r4 = Rep(&Seq(&[(T::N, S("aa")), (T::N, S(".")), (T::N, S("cb"))]), 1, INF, T::N);
    r5 = Rep(&Seq(&[(T::N, S("b")), (T::N, S("c"))]), 1, INF, T::N);
    r6 = Rep(&Seq(&[(T::O, S("c")), (T::O, x::r4), (T::O, S("b"))]), 1, 1, T::O);
    r7 = R('a', 'a');
    _r8 "_" = Alt(&[Rep(&S("c."), 0, INF, T::O), Rep(&S("c"), 0, 1, T::N), Rep(&S("b"), 1, 3, T::N), Alt(&[S("."), S("a")])]);
    _r9 "_" = S(".");
    r10 = Rep(&Rep(&Rep(&x::r7, 1, INF, T::N), 1, 3, T::N), 2, 2, T::N);
    r11 = Alt(&[Seq(&[(T::M, R('b', 'c')), (T::O, S("a")), (T::N, S("bb")), (T::N, R('a', 'a'))]), Rep(&Any, 1, INF, T::N), Rep(&S("a"), 1, 1, T::N), Rep(&S("c"), 0, INF, T::N), Seq(&[(T::O, S("b")), (T::N, x::r10), (T::O, R('a', 'b')), (T::N, Any)]), x::r0, S("c"), Opt(&S("c")), R('b', 'd'), Rep(&x::r1, 2, 2, T::O), S(".c"), S("b"), Seq(&[(T::O, S("b")), (T::M, S("c"))]), Seq(&[(T::N, x::_r2), (T::M, x::_r8)]), x::r0, Seq(&[(T::N, x::_r9), (T::O, x::r7), (T::N, x::r10), (T::N, S("."))]), Rep(&S("a."), 1, INF, T::O), Rep(&S("a"), 1, 3, T::N), S("b"), x::_r8]);
    r12 = Alt(&[Seq(&[(T::M, Alt(&[Any, S(".")])), (T::N, x::r10)]), Rep(&x::r4, 0, 2, T::N)]);
    r13 = Seq(&[(T::N, Rep(&x::r1, 1, INF, T::N)), (T::N, Rep(&S("c."), 0, INF, T::M)), (T::O, Rep(&S("."), 1, INF, T::N))]);
    r14 = Rep(&Rep(&x::r6, 3, 3, T::M), 0, INF, T::O);
    r15 = Opt(&Opt(&R('a', 'c')));
    r16 = Alt(&[Neg(&Neg(&S("c"))), x::_r8, Opt(&Rep(&x::r5, 1, INF, T::O)), Seq(&[(T::O, Rep(&S("b"), 1, 2, T::M)), (T::O, Any)])]);
    r17 = Seq(&[(T::N, Rep(&S("a"), 1, 3, T::N)), (T::N, Rep(&S("ca"), 2, 2, T::O))]);
    r18 = Alt(&[Seq(&[(T::M, S("c")), (T::M, x::_r2), (T::N, S("b")), (T::N, x::_r9)]), Rep(&S("b"), 1, 2, T::N), Opt(&x::_r9), Seq(&[(T::N, x::r1), (T::O, x::r1), (T::O, S("c"))])]);
    _r19 "_" = Opt(&Alt(&[Seq(&[(T::N, x::r17), (T::N, x::r0)]), x::r18]));
}
fn any_rep() -> usize { choose(100) }
#[allow(unused)] fn run_rep(k: usize, s: &'static str) { match k / 20 { 0 => { rep0::run(k % 20, s); } 1 => { rep1::run(k % 20, s); } 2 => { rep2::run(k % 20, s); } 3 => { rep3::run(k % 20, s); } 4 => { rep4::run(k % 20, s); } _ => {} } }
#[allow(unused)] fn visit_rep<V: Visit>(k: usize, v: &mut V) { match k / 20 { 0 => rep0::visit(k % 20, v), 1 => rep1::visit(k % 20, v), 2 => rep2::visit(k % 20, v), 3 => rep3::visit(k % 20, v), 4 => rep4::visit(k % 20, v), _ => {} } }
