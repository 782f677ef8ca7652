// Written by bin/mkgen.py.
suite! { mod rec0 = r##"
~ = "."
^ = "_"
r0 = pest::any
r1 = r0?
r2 = pest::any
r3 = ((r1 | "a" | pest::any | ("a" - r0 - ")" - r9) | (r2 | "b") | (r0 - "b") | (r0 - "(" - 'a'..'d') | r0) | r0 | ("(" - r2)) - (r1? - (r0 - r13 - r17))
r4 = r3
r5 = (r2 - r13) | "a"*
r6 = "b" - ((r5 | r6) - "a"~{2..}) - ((")a" | r0) | ("a" - r9 - ")" - r16) | r0{1})
r7 = 'a'..'d' - ((pest::any)? - r11) - ((pest::any - "a" - ")a") | (r11 - "()" - r4) | (_r12 - pest::any - 'c'..'d' - r10) | "b"~{1})
_r8 = _{ r1 }
r9 = (r6 | "a" | r3 | "(")? - ((r0 ~ r10 - "b(") - (")" | "aa" | "ba") - ")"{0..1} - (r11 ~ r14))
r10 = (("ba" | "a" | "a") | !("a")) - ((r6 | r9) - r13?) - (r13 - "a" ~ "b" - r11)?
r11 = !("(") - (("b" - "b" - r0 - "b(") | (r2 - r16 - "b" - r16)) - (r14?)?
_r12 = _{ ((r6 - ")a") | r1) - ((")b" | _r8 | r6) | r3?) }
r13 = r1
r14 = ((r11 ~ "(b") - r19?) - "a(" - ("a" | ")")? - (('a'..'c' | r19) - (r5 | "(" | r4))
r15 = ("(" - "(" - 'a'..'c') | ("(" - "((" - r19) | ("((" - "(") | ("ba" | _r12)
r16 = "a"? | ("b" - r18 - r19){..}
r17 = ((")" | "b"){1..})?
r18 = (r11 - "a")?
r19 = (r15 - "(" - r7) - "("
"##; opt = Some(S(".")); man = Some(S("_"));
    r0 = Any;
    r1 = Opt(&x::r0);
    r2 = Any;
    r3 = Seq(&[(T::N, Alt(&[Alt(&[x::r1, S("a"), Any, Seq(&[(T::N, S("a")), (T::N, x::r0), (T::N, S(")")), (T::N, x::r9)]), Alt(&[x::r2, S("b")]), Seq(&[(T::O, x::r0), (T::N, S("b"))]), Seq(&[(T::N, x::r0), (T::N, S("(")), (T::N, R('a', 'd'))]), x::r0]), x::r0, Seq(&[(T::N, S("(")), (T::N, x::r2)])])), (T::N, Seq(&[(T::N, Opt(&x::r1)), (T::N, Seq(&[(T::N, x::r0), (T::N, x::r13), (T::N, x::r17)]))]))]);
    r4 = x::r3;
    r5 = Alt(&[Seq(&[(T::N, x::r2), (T::N, x::r13)]), Rep(&S("a"), 0, INF, T::N)]);
    r6 = Seq(&[(T::N, S("b")), (T::N, Seq(&[(T::N, Alt(&[x::r5, x::r6])), (T::N, Rep(&S("a"), 2, INF, T::O))])), (T::N, Alt(&[Alt(&[S(")a"), x::r0]), Seq(&[(T::N, S("a")), (T::N, x::r9), (T::N, S(")")), (T::N, x::r16)]), Rep(&x::r0, 1, 1, T::N)]))]);
    r7 = Seq(&[(T::N, R('a', 'd')), (T::N, Seq(&[(T::N, Opt(&Any)), (T::N, x::r11)])), (T::N, Alt(&[Seq(&[(T::N, Any), (T::N, S("a")), (T::N, S(")a"))]), Seq(&[(T::N, x::r11), (T::N, S("()")), (T::N, x::r4)]), Seq(&[(T::N, x::_r12), (T::N, Any), (T::N, R('c', 'd')), (T::N, x::r10)]), Rep(&S("b"), 1, 1, T::O)]))]);
    _r8 "_" = x::r1;
    r9 = Seq(&[(T::N, Opt(&Alt(&[x::r6, S("a"), x::r3, S("(")]))), (T::N, Seq(&[(T::N, Seq(&[(T::N, x::r0), (T::O, x::r10), (T::N, S("b("))])), (T::N, Alt(&[S(")"), S("aa"), S("ba")])), (T::N, Rep(&S(")"), 0, 1, T::N)), (T::N, Seq(&[(T::N, x::r11), (T::O, x::r14)]))]))]);
    r10 = Seq(&[(T::N, Alt(&[Alt(&[S("ba"), S("a"), S("a")]), Neg(&S("a"))])), (T::N, Seq(&[(T::N, Alt(&[x::r6, x::r9])), (T::N, Opt(&x::r13))])), (T::N, Opt(&Seq(&[(T::N, x::r13), (T::N, S("a")), (T::O, S("b")), (T::N, x::r11)])))]);
    r11 = Seq(&[(T::N, Neg(&S("("))), (T::N, Alt(&[Seq(&[(T::O, S("b")), (T::N, S("b")), (T::N, x::r0), (T::N, S("b("))]), Seq(&[(T::N, x::r2), (T::N, x::r16), (T::N, S("b")), (T::N, x::r16)])])), (T::N, Opt(&Opt(&x::r14)))]);
    _r12 "_" = Seq(&[(T::N, Alt(&[Seq(&[(T::N, x::r6), (T::N, S(")a"))]), x::r1])), (T::N, Alt(&[Alt(&[S(")b"), x::_r8, x::r6]), Opt(&x::r3)]))]);
    r13 = x::r1;
    r14 = Seq(&[(T::N, Seq(&[(T::N, Seq(&[(T::N, x::r11), (T::O, S("(b"))])), (T::N, Opt(&x::r19))])), (T::N, S("a(")), (T::N, Opt(&Alt(&[S("a"), S(")")]))), (T::N, Seq(&[(T::N, Alt(&[R('a', 'c'), x::r19])), (T::N, Alt(&[x::r5, S("("), x::r4]))]))]);
    r15 = Alt(&[Seq(&[(T::N, S("(")), (T::N, S("(")), (T::N, R('a', 'c'))]), Seq(&[(T::N, S("(")), (T::N, S("((")), (T::N, x::r19)]), Seq(&[(T::N, S("((")), (T::N, S("("))]), Alt(&[S("ba"), x::_r12])]);
    r16 = Alt(&[Opt(&S("a")), Rep(&Seq(&[(T::N, S("b")), (T::N, x::r18), (T::N, x::r19)]), 0, INF, T::N)]);
    r17 = Opt(&Rep(&Alt(&[S(")"), S("b")]), 1, INF, T::N));
    r18 = Opt(&Seq(&[(T::N, x::r11), (T::N, S("a"))]));
    r19 = Seq(&[(T::N, Seq(&[(T::O, x::r15), (T::N, S("(")), (T::N, x::r7)])), (T::N, S("("))]);
}
suite! { mod rec1 = r##"
~ = "."
^ = "_"
r0 = "("
r1 = "(" - r15 ~ r17
r2 = r1 | r1
r3 = &((r2 | "b" | "(") - r16? - (r1 | "a)"))
r4 = &(&(r0 ~ "("))
r5 = ((r4 | r2 | r2) - (r4 - 'a'..'b') - r12 - (")" ~ 'a'..'d' - r4)){2..}
r6 = !((r0{1}){2})
r7 = ((r4? ~ "("? ~ r5? - (pest::any)? - ")a"? - (pest::any)? - r4? - "("? ~ r5? - r6 - r4? - r4? - r0 - 'a'..'c' ~ r17? ~ r13? - "a"?) | (")" - "a" - pest::any) | ('a'..'c' - "b" ~ r15)) - ((r12 | _r18? | ")"~* | (r10 | ")") | (r0 - r1 - pest::any ~ ")") | ")" | (r8 | r3)) - (r11 - 'a'..'a') - (r8 - 'c'..'c' ~ r5 - r9) - ("a" ~ r17 - "("))
r8 = ((r3 | "(") - (r7 - _r18) - (")" - "a")) | (("b" - r16 - pest::any) - (pest::any)? ~ "b"{2..}) | ("a" - r11 - r3)?
r9 = ("(" - r9 - "b)" - r11) | r6? | ")"? | (r1 - "ba" - "a") | r6 | (r0 ~ 'a'..'a' - 'a'..'c' - r17) | pest::any | "))" | r8 | "b" | r4 | ")(" | 'a'..'c'
r10 = (r3? - r1 ~ (pest::any)? - ")"? ~ r12 - r9?)~+ - ((r17 | r10 | r9) - "(a") - ")"{..2} - (r15 - _r18? - r17? ~ "b"? - "("? - r14? - r6?)
r11 = (("()" - "ba" - r7 - r17) - (r10 ~ r3 - ")"))?
r12 = (r3 - ")" - _r18) - ("a" - r13 - r16 - _r18)
r13 = (r7? ~ (pest::any)? - "b"? - r0? - r8 - "("? - r0? - "b"? - r2 - r16? - "("? - "(" - r16?)?
r14 = ((r4 - r6) ~ ('b'..'c' - "b" - ")" - ")b") - (")" - r19 - r14)){1}
r15 = ((r10 - _r18 - "a)") - (r15 - r17 - "b") - ("(" - r17 - r15))~{3}
r16 = ((r13 | r15 | r7) - (r15 | r9 | r9) - (r9 | 'b'..'c'))?
r17 = ((r14 - _r18 ~ r14) ~ ('a'..'c' | _r18) - ('a'..'d' - r17 ~ "b"))?
_r18 = _{ (r17 - "(")~{2} - ((r19 - 'c'..'d' - _r18) - r19) - (('b'..'c' | _r18) | ("a)" | _r18) | !("a")) }
r19 = (("(" | "b") | (_r18 - "a" - "b") | !(r17) | ("b" - r13)) | "(b"?
"##; opt = Some(S(".")); man = Some(S("_"));
    r0 = S("(");
    r1 = Seq(&[(T::N, S("(")), (T::N, x::r15), (T::O, x::r17)]);
    r2 = Alt(&[x::r1, x::r1]);
    r3 = Pos(&Seq(&[(T::O, Alt(&[x::r2, S("b"), S("(")])), (T::N, Opt(&x::r16)), (T::N, Alt(&[x::r1, S("a)")]))]));
    r4 = Pos(&Pos(&Seq(&[(T::N, x::r0), (T::O, S("("))])));
    r5 = Rep(&Seq(&[(T::N, Alt(&[x::r4, x::r2, x::r2])), (T::N, Seq(&[(T::N, x::r4), (T::N, R('a', 'b'))])), (T::N, x::r12), (T::N, Seq(&[(T::N, S(")")), (T::O, R('a', 'd')), (T::N, x::r4)]))]), 2, INF, T::N);
    r6 = Neg(&Rep(&Rep(&x::r0, 1, 1, T::N), 2, 2, T::N));
    r7 = Seq(&[(T::N, Alt(&[Seq(&[(T::N, Opt(&x::r4)), (T::O, Opt(&S("("))), (T::O, Opt(&x::r5)), (T::N, Opt(&Any)), (T::N, Opt(&S(")a"))), (T::N, Opt(&Any)), (T::N, Opt(&x::r4)), (T::N, Opt(&S("("))), (T::O, Opt(&x::r5)), (T::N, x::r6), (T::N, Opt(&x::r4)), (T::N, Opt(&x::r4)), (T::N, x::r0), (T::N, R('a', 'c')), (T::O, Opt(&x::r17)), (T::O, Opt(&x::r13)), (T::N, Opt(&S("a")))]), Seq(&[(T::N, S(")")), (T::N, S("a")), (T::N, Any)]), Seq(&[(T::O, R('a', 'c')), (T::N, S("b")), (T::O, x::r15)])])), (T::N, Seq(&[(T::O, Alt(&[x::r12, Opt(&x::_r18), Rep(&S(")"), 0, INF, T::O), Alt(&[x::r10, S(")")]), Seq(&[(T::O, x::r0), (T::N, x::r1), (T::N, Any), (T::O, S(")"))]), S(")"), Alt(&[x::r8, x::r3])])), (T::N, Seq(&[(T::N, x::r11), (T::N, R('a', 'a'))])), (T::N, Seq(&[(T::N, x::r8), (T::N, R('c', 'c')), (T::O, x::r5), (T::N, x::r9)])), (T::N, Seq(&[(T::N, S("a")), (T::O, x::r17), (T::N, S("("))]))]))]);
    r8 = Alt(&[Seq(&[(T::N, Alt(&[x::r3, S("(")])), (T::N, Seq(&[(T::N, x::r7), (T::N, x::_r18)])), (T::N, Seq(&[(T::N, S(")")), (T::N, S("a"))]))]), Seq(&[(T::O, Seq(&[(T::N, S("b")), (T::N, x::r16), (T::N, Any)])), (T::N, Opt(&Any)), (T::O, Rep(&S("b"), 2, INF, T::N))]), Opt(&Seq(&[(T::N, S("a")), (T::N, x::r11), (T::N, x::r3)]))]);
    r9 = Alt(&[Seq(&[(T::N, S("(")), (T::N, x::r9), (T::N, S("b)")), (T::N, x::r11)]), Opt(&x::r6), Opt(&S(")")), Seq(&[(T::N, x::r1), (T::N, S("ba")), (T::N, S("a"))]), x::r6, Seq(&[(T::N, x::r0), (T::O, R('a', 'a')), (T::N, R('a', 'c')), (T::N, x::r17)]), Any, S("))"), x::r8, S("b"), x::r4, S(")("), R('a', 'c')]);
    r10 = Seq(&[(T::N, Rep(&Seq(&[(T::N, Opt(&x::r3)), (T::N, x::r1), (T::O, Opt(&Any)), (T::N, Opt(&S(")"))), (T::O, x::r12), (T::N, Opt(&x::r9))]), 1, INF, T::O)), (T::N, Seq(&[(T::N, Alt(&[x::r17, x::r10, x::r9])), (T::N, S("(a"))])), (T::N, Rep(&S(")"), 0, 2, T::N)), (T::N, Seq(&[(T::N, x::r15), (T::N, Opt(&x::_r18)), (T::N, Opt(&x::r17)), (T::O, Opt(&S("b"))), (T::N, Opt(&S("("))), (T::N, Opt(&x::r14)), (T::N, Opt(&x::r6))]))]);
    r11 = Opt(&Seq(&[(T::N, Seq(&[(T::N, S("()")), (T::N, S("ba")), (T::N, x::r7), (T::N, x::r17)])), (T::N, Seq(&[(T::N, x::r10), (T::O, x::r3), (T::N, S(")"))]))]));
    r12 = Seq(&[(T::O, Seq(&[(T::N, x::r3), (T::N, S(")")), (T::N, x::_r18)])), (T::N, Seq(&[(T::N, S("a")), (T::N, x::r13), (T::N, x::r16), (T::N, x::_r18)]))]);
    r13 = Opt(&Seq(&[(T::N, Opt(&x::r7)), (T::O, Opt(&Any)), (T::N, Opt(&S("b"))), (T::N, Opt(&x::r0)), (T::N, x::r8), (T::N, Opt(&S("("))), (T::N, Opt(&x::r0)), (T::N, Opt(&S("b"))), (T::N, x::r2), (T::N, Opt(&x::r16)), (T::N, Opt(&S("("))), (T::N, S("(")), (T::N, Opt(&x::r16))]));
    r14 = Rep(&Seq(&[(T::N, Seq(&[(T::N, x::r4), (T::N, x::r6)])), (T::O, Seq(&[(T::N, R('b', 'c')), (T::N, S("b")), (T::N, S(")")), (T::N, S(")b"))])), (T::N, Seq(&[(T::N, S(")")), (T::N, x::r19), (T::N, x::r14)]))]), 1, 1, T::N);
    r15 = Rep(&Seq(&[(T::N, Seq(&[(T::O, x::r10), (T::N, x::_r18), (T::N, S("a)"))])), (T::N, Seq(&[(T::N, x::r15), (T::N, x::r17), (T::N, S("b"))])), (T::N, Seq(&[(T::N, S("(")), (T::N, x::r17), (T::N, x::r15)]))]), 3, 3, T::O);
    r16 = Opt(&Seq(&[(T::N, Alt(&[x::r13, x::r15, x::r7])), (T::N, Alt(&[x::r15, x::r9, x::r9])), (T::N, Alt(&[x::r9, R('b', 'c')]))]));
    r17 = Opt(&Seq(&[(T::N, Seq(&[(T::N, x::r14), (T::N, x::_r18), (T::O, x::r14)])), (T::O, Alt(&[R('a', 'c'), x::_r18])), (T::N, Seq(&[(T::O, R('a', 'd')), (T::N, x::r17), (T::O, S("b"))]))]));
    _r18 "_" = Seq(&[(T::N, Rep(&Seq(&[(T::N, x::r17), (T::N, S("("))]), 2, 2, T::O)), (T::N, Seq(&[(T::O, Seq(&[(T::N, x::r19), (T::N, R('c', 'd')), (T::N, x::_r18)])), (T::N, x::r19)])), (T::N, Alt(&[Alt(&[R('b', 'c'), x::_r18]), Alt(&[S("a)"), x::_r18]), Neg(&S("a"))]))]);
    r19 = Alt(&[Alt(&[Alt(&[S("("), S("b")]), Seq(&[(T::O, x::_r18), (T::N, S("a")), (T::N, S("b"))]), Neg(&x::r17), Seq(&[(T::N, S("b")), (T::N, x::r13)])]), Opt(&S("(b"))]);
}
suite! { mod rec2 = r##"
~ = "."
^ = "_"
r0 = pest::any
r1 = r0 - "("
r2 = "(" | r1
_r3 = _{ r0{3} - (r15 | "a" | r5) }
r4 = (("(" | "(") | r0{..2}) - (("a" | r1) ~ &(r4) - r2) - _r3
r5 = &(r1{1..} ~ (r18 - "a"))
r6 = (r1 | ")" | "a")? | ((pest::any - "b" - r17) - "a"{3} - ("(" | "(b"))
r7 = r1 - r13 - "b"? ~ "a"? - ('b'..'c')? - r17? - r1? - r13? - r7? - r9? - r0? - r6
r8 = &("((" | "(")
r9 = !(")"? - "b"+)
r10 = "a"? - "bb"{2..}
r11 = &(('a'..'a' - "ba" - r9 - ")"){1..3})
r12 = ("(" - "(")?
r13 = r7{..2} - (r12 ~ ")" - "a" - r18)
_r14 = _{ ((r1 - r8 ~ r1 - r9) | r5?) | ("a"? - r12? - "b" ~ ('a'..'b')? ~ r17 - r17? - r17? ~ r17?) }
r15 = (&(r11 | r9))?
r16 = "()"
r17 = ((r12 | "(" | r16) ~ !(r2) - (r4 | pest::any | "a") - r18?) | (")("{1..3} | ("b)" | r12 | (")" | ")" | r15) | r6 | ('b'..'c' | "a" | r13) | "b"~{1..})) | (!(pest::any) - ")"?)
r18 = ((r7 | r7) - r19? - (r18 - "(" ~ r18)) | !("("?) | (")a" - ")")~{..}
r19 = ("(" | "(")?
"##; opt = Some(S(".")); man = Some(S("_"));
    r0 = Any;
    r1 = Seq(&[(T::O, x::r0), (T::N, S("("))]);
    r2 = Alt(&[S("("), x::r1]);
    _r3 "_" = Seq(&[(T::N, Rep(&x::r0, 3, 3, T::N)), (T::N, Alt(&[x::r15, S("a"), x::r5]))]);
    r4 = Seq(&[(T::N, Alt(&[Alt(&[S("("), S("(")]), Rep(&x::r0, 0, 2, T::N)])), (T::N, Seq(&[(T::N, Alt(&[S("a"), x::r1])), (T::O, Pos(&x::r4)), (T::N, x::r2)])), (T::N, x::_r3)]);
    r5 = Pos(&Seq(&[(T::N, Rep(&x::r1, 1, INF, T::N)), (T::O, Seq(&[(T::N, x::r18), (T::N, S("a"))]))]));
    r6 = Alt(&[Opt(&Alt(&[x::r1, S(")"), S("a")])), Seq(&[(T::N, Seq(&[(T::N, Any), (T::N, S("b")), (T::N, x::r17)])), (T::N, Rep(&S("a"), 3, 3, T::N)), (T::N, Alt(&[S("("), S("(b")]))])]);
    r7 = Seq(&[(T::N, x::r1), (T::N, x::r13), (T::N, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::N, Opt(&R('b', 'c'))), (T::N, Opt(&x::r17)), (T::N, Opt(&x::r1)), (T::N, Opt(&x::r13)), (T::N, Opt(&x::r7)), (T::N, Opt(&x::r9)), (T::N, Opt(&x::r0)), (T::N, x::r6)]);
    r8 = Pos(&Alt(&[S("(("), S("(")]));
    r9 = Neg(&Seq(&[(T::N, Opt(&S(")"))), (T::N, Rep(&S("b"), 1, INF, T::N))]));
    r10 = Seq(&[(T::N, Opt(&S("a"))), (T::N, Rep(&S("bb"), 2, INF, T::N))]);
    r11 = Pos(&Rep(&Seq(&[(T::O, R('a', 'a')), (T::N, S("ba")), (T::N, x::r9), (T::N, S(")"))]), 1, 3, T::N));
    r12 = Opt(&Seq(&[(T::N, S("(")), (T::N, S("("))]));
    r13 = Seq(&[(T::N, Rep(&x::r7, 0, 2, T::N)), (T::N, Seq(&[(T::N, x::r12), (T::O, S(")")), (T::N, S("a")), (T::N, x::r18)]))]);
    _r14 "_" = Alt(&[Alt(&[Seq(&[(T::N, x::r1), (T::N, x::r8), (T::O, x::r1), (T::N, x::r9)]), Opt(&x::r5)]), Seq(&[(T::N, Opt(&S("a"))), (T::N, Opt(&x::r12)), (T::N, S("b")), (T::O, Opt(&R('a', 'b'))), (T::O, x::r17), (T::N, Opt(&x::r17)), (T::N, Opt(&x::r17)), (T::O, Opt(&x::r17))])]);
    r15 = Opt(&Pos(&Alt(&[x::r11, x::r9])));
    r16 = S("()");
    r17 = Alt(&[Seq(&[(T::N, Alt(&[x::r12, S("("), x::r16])), (T::O, Neg(&x::r2)), (T::N, Alt(&[x::r4, Any, S("a")])), (T::N, Opt(&x::r18))]), Alt(&[Rep(&S(")("), 1, 3, T::N), Alt(&[S("b)"), x::r12, Alt(&[S(")"), S(")"), x::r15]), x::r6, Alt(&[R('b', 'c'), S("a"), x::r13]), Rep(&S("b"), 1, INF, T::O)])]), Seq(&[(T::N, Neg(&Any)), (T::N, Opt(&S(")")))])]);
    r18 = Alt(&[Seq(&[(T::N, Alt(&[x::r7, x::r7])), (T::N, Opt(&x::r19)), (T::N, Seq(&[(T::O, x::r18), (T::N, S("(")), (T::O, x::r18)]))]), Neg(&Opt(&S("("))), Rep(&Seq(&[(T::N, S(")a")), (T::N, S(")"))]), 0, INF, T::O)]);
    r19 = Opt(&Alt(&[S("("), S("(")]));
}
suite! { mod rec3 = r##"
~ = "."
^ = "_"
r0 = "a"
r1 = 'b'..'c' - r4 ~ r2
r2 = r1 | r0
_r3 = _{ ("b"~* - ("b" - "b" - r5) - r2?)? }
r4 = &(r1{..}) - ("a"? - r0? - r0 - r12? - r2? - r14? ~ r16? ~ "b"? - r12 - r7?) - ((r12 - r9 - 'a'..'b' - r5) - (r14 | r9) ~ (")" | "a)" | 'b'..'c') - (r8 - "a"))
r5 = "(a"
r6 = (_r3? | ")"?) - (!(")") - (r5 | _r3 | r4 | "a") - (r0 - r5) - ("b" - "b" - r4 - r6))
r7 = (r6 | r5 | "b") - (r6 - r19 - _r10) - "a"{2}
r8 = ((_r3 | pest::any | "(") | (_r3 ~ "a")) - !(r2 | "ab") - (("b" ~ r13) | (r2 - r7 ~ _r10 - "a"))
r9 = ("()"? ~ ("()" | r5 | r8 | "a") - (r1 - 'b'..'c' - _r3 - "a") ~ r13)?
_r10 = _{ ")"* - ("b" - 'a'..'a') }
_r11 = _{ (r1? - r2? - "("? - r6? - r6? - r2? - ('b'..'b')? - _r10?) | ")" | ((r7 - pest::any - r14) - (r9 - r18 - "(") - r17?) | ((r5 - r9) - (_r11 - ")" - "b") - (r16 ~ r15 - r17) - ("b("? - r14? ~ ('a'..'d')? - r19? - r5? - r9? - _r3? - "bb"? - r14? - r13? - r16 - "b"? - r17 - r19? - "a" - "("? - "b"? - r14? - "b"? ~ _r11?)) }
r12 = (&(r4) | (r9 - _r3 - r8 - "(") | (r0 | _r3 | _r3) | (r1? - ")"? - (pest::any)? - "bb"? - "a"? - ('b'..'b')? - r5? - _r3 - ('b'..'b')? - "("? - r7? - "("? - "a"? - "a" ~ _r10? - r16? - 'a'..'c' - r14? - (pest::any)? - "("?)) - ((r5 - ")") - ('b'..'c' | "a") - r13) ~ ((r12 - "b") - (r12 - r12) - (r17 ~ r17) - ")b"?)
r13 = (r4 - "b(") - "b" - (r19 ~ "a")
r14 = (("b(" - r15)~{1..}){2..}
r15 = (((r4 ~ r19 - 'c'..'d') | (_r3 - ")") | ")"? | r0 | "a" | r6 | r1 | 'b'..'d' | r9 | r2 | ("b" - r18 - "aa" - "b") | r12 | r0 | (r7 - _r3 - "a") | r1 | ")"{1..3}) | 'a'..'a' | (_r11 | _r10 | "))" | _r3)) - (r12 | (r13 - r9 - r19) | (r12 - r16) | ")" | ")" | ")" | ")" | (r7 - r18 - "))" - _r3))
r16 = r7 | r6 | _r11
r17 = (r8? - ("b" - r15 - r5) - (r18 - 'a'..'d' - "(" - ")"? - r14? - r19 - r17? - "a"? - r19? - "a"? - r17? - "b)"? ~ ")"?) - ("(" | 'a'..'c' | ")" | r18))*
r18 = (r13? - r13 - ")"? ~ "a"? - r0? - r18 ~ "("? ~ "b"?){1..3}
r19 = &((r9 - r9 - r18 - r19) - "(a" - (r19 - r12))
"##; opt = Some(S(".")); man = Some(S("_"));
    r0 = S("a");
    r1 = Seq(&[(T::O, R('b', 'c')), (T::N, x::r4), (T::O, x::r2)]);
    r2 = Alt(&[x::r1, x::r0]);
    _r3 "_" = Opt(&Seq(&[(T::N, Rep(&S("b"), 0, INF, T::O)), (T::N, Seq(&[(T::O, S("b")), (T::N, S("b")), (T::N, x::r5)])), (T::N, Opt(&x::r2))]));
    r4 = Seq(&[(T::N, Pos(&Rep(&x::r1, 0, INF, T::N))), (T::N, Seq(&[(T::N, Opt(&S("a"))), (T::N, Opt(&x::r0)), (T::N, x::r0), (T::N, Opt(&x::r12)), (T::N, Opt(&x::r2)), (T::N, Opt(&x::r14)), (T::O, Opt(&x::r16)), (T::O, Opt(&S("b"))), (T::N, x::r12), (T::N, Opt(&x::r7))])), (T::N, Seq(&[(T::O, Seq(&[(T::N, x::r12), (T::N, x::r9), (T::N, R('a', 'b')), (T::N, x::r5)])), (T::N, Alt(&[x::r14, x::r9])), (T::O, Alt(&[S(")"), S("a)"), R('b', 'c')])), (T::N, Seq(&[(T::N, x::r8), (T::N, S("a"))]))]))]);
    r5 = S("(a");
    r6 = Seq(&[(T::N, Alt(&[Opt(&x::_r3), Opt(&S(")"))])), (T::N, Seq(&[(T::N, Neg(&S(")"))), (T::N, Alt(&[x::r5, x::_r3, x::r4, S("a")])), (T::N, Seq(&[(T::O, x::r0), (T::N, x::r5)])), (T::N, Seq(&[(T::O, S("b")), (T::N, S("b")), (T::N, x::r4), (T::N, x::r6)]))]))]);
    r7 = Seq(&[(T::N, Alt(&[x::r6, x::r5, S("b")])), (T::N, Seq(&[(T::N, x::r6), (T::N, x::r19), (T::N, x::_r10)])), (T::N, Rep(&S("a"), 2, 2, T::N))]);
    r8 = Seq(&[(T::N, Alt(&[Alt(&[x::_r3, Any, S("(")]), Seq(&[(T::N, x::_r3), (T::O, S("a"))])])), (T::N, Neg(&Alt(&[x::r2, S("ab")]))), (T::N, Alt(&[Seq(&[(T::O, S("b")), (T::O, x::r13)]), Seq(&[(T::N, x::r2), (T::N, x::r7), (T::O, x::_r10), (T::N, S("a"))])]))]);
    r9 = Opt(&Seq(&[(T::O, Opt(&S("()"))), (T::O, Alt(&[S("()"), x::r5, x::r8, S("a")])), (T::N, Seq(&[(T::N, x::r1), (T::N, R('b', 'c')), (T::N, x::_r3), (T::N, S("a"))])), (T::O, x::r13)]));
    _r10 "_" = Seq(&[(T::N, Rep(&S(")"), 0, INF, T::N)), (T::N, Seq(&[(T::N, S("b")), (T::N, R('a', 'a'))]))]);
    _r11 "_" = Alt(&[Seq(&[(T::N, Opt(&x::r1)), (T::N, Opt(&x::r2)), (T::N, Opt(&S("("))), (T::N, Opt(&x::r6)), (T::N, Opt(&x::r6)), (T::N, Opt(&x::r2)), (T::N, Opt(&R('b', 'b'))), (T::N, Opt(&x::_r10))]), S(")"), Seq(&[(T::O, Seq(&[(T::N, x::r7), (T::N, Any), (T::N, x::r14)])), (T::N, Seq(&[(T::N, x::r9), (T::N, x::r18), (T::N, S("("))])), (T::N, Opt(&x::r17))]), Seq(&[(T::N, Seq(&[(T::O, x::r5), (T::N, x::r9)])), (T::N, Seq(&[(T::N, x::_r11), (T::N, S(")")), (T::N, S("b"))])), (T::N, Seq(&[(T::N, x::r16), (T::O, x::r15), (T::N, x::r17)])), (T::N, Seq(&[(T::N, Opt(&S("b("))), (T::N, Opt(&x::r14)), (T::O, Opt(&R('a', 'd'))), (T::N, Opt(&x::r19)), (T::N, Opt(&x::r5)), (T::N, Opt(&x::r9)), (T::N, Opt(&x::_r3)), (T::N, Opt(&S("bb"))), (T::N, Opt(&x::r14)), (T::N, Opt(&x::r13)), (T::N, x::r16), (T::N, Opt(&S("b"))), (T::N, x::r17), (T::N, Opt(&x::r19)), (T::N, S("a")), (T::N, Opt(&S("("))), (T::N, Opt(&S("b"))), (T::N, Opt(&x::r14)), (T::N, Opt(&S("b"))), (T::O, Opt(&x::_r11))]))])]);
    r12 = Seq(&[(T::N, Alt(&[Pos(&x::r4), Seq(&[(T::N, x::r9), (T::N, x::_r3), (T::N, x::r8), (T::N, S("("))]), Alt(&[x::r0, x::_r3, x::_r3]), Seq(&[(T::N, Opt(&x::r1)), (T::N, Opt(&S(")"))), (T::N, Opt(&Any)), (T::N, Opt(&S("bb"))), (T::N, Opt(&S("a"))), (T::N, Opt(&R('b', 'b'))), (T::N, Opt(&x::r5)), (T::N, x::_r3), (T::N, Opt(&R('b', 'b'))), (T::N, Opt(&S("("))), (T::N, Opt(&x::r7)), (T::N, Opt(&S("("))), (T::N, Opt(&S("a"))), (T::N, S("a")), (T::O, Opt(&x::_r10)), (T::N, Opt(&x::r16)), (T::N, R('a', 'c')), (T::N, Opt(&x::r14)), (T::N, Opt(&Any)), (T::N, Opt(&S("(")))])])), (T::N, Seq(&[(T::N, Seq(&[(T::O, x::r5), (T::N, S(")"))])), (T::N, Alt(&[R('b', 'c'), S("a")])), (T::N, x::r13)])), (T::O, Seq(&[(T::N, Seq(&[(T::N, x::r12), (T::N, S("b"))])), (T::N, Seq(&[(T::N, x::r12), (T::N, x::r12)])), (T::N, Seq(&[(T::N, x::r17), (T::O, x::r17)])), (T::N, Opt(&S(")b")))]))]);
    r13 = Seq(&[(T::N, Seq(&[(T::O, x::r4), (T::N, S("b("))])), (T::N, S("b")), (T::N, Seq(&[(T::N, x::r19), (T::O, S("a"))]))]);
    r14 = Rep(&Rep(&Seq(&[(T::N, S("b(")), (T::N, x::r15)]), 1, INF, T::O), 2, INF, T::N);
    r15 = Seq(&[(T::O, Alt(&[Alt(&[Seq(&[(T::N, x::r4), (T::O, x::r19), (T::N, R('c', 'd'))]), Seq(&[(T::N, x::_r3), (T::N, S(")"))]), Opt(&S(")")), x::r0, S("a"), x::r6, x::r1, R('b', 'd'), x::r9, x::r2, Seq(&[(T::N, S("b")), (T::N, x::r18), (T::N, S("aa")), (T::N, S("b"))]), x::r12, x::r0, Seq(&[(T::N, x::r7), (T::N, x::_r3), (T::N, S("a"))]), x::r1, Rep(&S(")"), 1, 3, T::N)]), R('a', 'a'), Alt(&[x::_r11, x::_r10, S("))"), x::_r3])])), (T::N, Alt(&[x::r12, Seq(&[(T::O, x::r13), (T::N, x::r9), (T::N, x::r19)]), Seq(&[(T::O, x::r12), (T::N, x::r16)]), S(")"), S(")"), S(")"), S(")"), Seq(&[(T::N, x::r7), (T::N, x::r18), (T::N, S("))")), (T::N, x::_r3)])]))]);
    r16 = Alt(&[x::r7, x::r6, x::_r11]);
    r17 = Rep(&Seq(&[(T::N, Opt(&x::r8)), (T::N, Seq(&[(T::N, S("b")), (T::N, x::r15), (T::N, x::r5)])), (T::N, Seq(&[(T::N, x::r18), (T::N, R('a', 'd')), (T::N, S("(")), (T::N, Opt(&S(")"))), (T::N, Opt(&x::r14)), (T::N, x::r19), (T::N, Opt(&x::r17)), (T::N, Opt(&S("a"))), (T::N, Opt(&x::r19)), (T::N, Opt(&S("a"))), (T::N, Opt(&x::r17)), (T::N, Opt(&S("b)"))), (T::O, Opt(&S(")")))])), (T::N, Alt(&[S("("), R('a', 'c'), S(")"), x::r18]))]), 0, INF, T::N);
    r18 = Rep(&Seq(&[(T::N, Opt(&x::r13)), (T::N, x::r13), (T::N, Opt(&S(")"))), (T::O, Opt(&S("a"))), (T::N, Opt(&x::r0)), (T::N, x::r18), (T::O, Opt(&S("("))), (T::O, Opt(&S("b")))]), 1, 3, T::N);
    r19 = Pos(&Seq(&[(T::N, Seq(&[(T::N, x::r9), (T::N, x::r9), (T::N, x::r18), (T::N, x::r19)])), (T::N, S("(a")), (T::N, Seq(&[(T::N, x::r19), (T::N, x::r12)]))]));
}
suite! { mod rec4 = r##"
~ = "."
^ = "_"
r0 = "()"
r1 = r0{1}
_r2 = _{ "b" - r6 ~ r9 }
r3 = 'a'..'c' | r0? | ")" | (")" - ")b" - r11) | "b" | ("a(" - r0) | r0 | ('c'..'d')?
r4 = ("b" | r0 | r1 | r0)~{2} - (("a" - r11) - 'c'..'d' - (_r10 | "b"))
_r5 = _{ ((pest::any - r1 - r9) | ("b" - r18 - "(") | (r4? - "b"? - r0? - "b"? ~ r0? - r1? - ")"? - "()"? ~ r3? - 'a'..'d' ~ r16? ~ r11)) | ("("? | (")" - r1 - _r8 - r6)) }
r6 = (r0 | _r5 | ")" | "(") - (r0 - r16) ~ ("b" - "a") - !(r12)
r7 = _r2
_r8 = _{ ('c'..'d')? - &(r3 - "b") }
r9 = (_r8 - ("b" | r0) - (r7 ~ _r8)) | (("a" | "b") | (r1 | "b)" | r1 | "(b")) | r1 | (("("? - "(("? - "("? ~ "b" - "("? - r18? - _r10? - _r17 ~ r12? - ")"? - "b"? ~ "("?) | (")" | r6 | r4 | _r5) | "(a"?)
_r10 = _{ ((r6 ~ "a" ~ ")") - r11?){..2} }
r11 = ("))" | "(")? - ((")b" - _r17) - (_r17 ~ r12 ~ "b" ~ r13) - !(pest::any)) ~ (r3 - "("{1} - r15?)
r12 = (_r2 - 'a'..'a') | ("a" ~ ")" ~ r19)
r13 = "b"
r14 = ((r4 | r6 | "a") | (")" - r0 - "(" - r18))+
r15 = ((r12 - ")" - 'b'..'c' - r13) | ('c'..'d' - "b" ~ ")")) | ((r1 - "a") | (r3 | ")" | ('b'..'d')? | r7 | ("a" - r15) | (_r8 - r1 - "(") | ('c'..'c' - "(") | !(")") | r14 | r9? | "a" | _r8 | r0 | r9 | "b" | ("b"? ~ "a(" - r15 - "b"? - r16? - r12? - _r2 - (pest::any)?) | r12) | (_r10 - "a" - "(") | (pest::any)?)
r16 = (")" - ")"?) ~ _r17 - ((_r5 - r3) - ("))" - "a" - "b") - (r18 | r18)) - ('a'..'a'){1..2}
_r17 = _{ (r15 - r4? ~ _r2? - _r2? ~ _r8? ~ (pest::any)? - "(" - r19 ~ _r10? - r19? - r18? ~ _r2? - ('a'..'b')? - "("? - _r17? - ")" ~ ")"? - _r17? - r19 ~ r19?) - (("b)" - "(") - (r18 | ")") - _r17? - ")") - ("(" - "a" - "(")~{3} - r18 }
r18 = "a"
r19 = ('a'..'c')~{1..3} | (r1 ~ r19 - r19)
"##; opt = Some(S(".")); man = Some(S("_"));
    r0 = S("()");
    r1 = Rep(&x::r0, 1, 1, T::N);
    _r2 "_" = Seq(&[(T::N, S("b")), (T::N, x::r6), (T::O, x::r9)]);
    r3 = Alt(&[R('a', 'c'), Opt(&x::r0), S(")"), Seq(&[(T::N, S(")")), (T::N, S(")b")), (T::N, x::r11)]), S("b"), Seq(&[(T::O, S("a(")), (T::N, x::r0)]), x::r0, Opt(&R('c', 'd'))]);
    r4 = Seq(&[(T::O, Rep(&Alt(&[S("b"), x::r0, x::r1, x::r0]), 2, 2, T::O)), (T::N, Seq(&[(T::O, Seq(&[(T::N, S("a")), (T::N, x::r11)])), (T::N, R('c', 'd')), (T::N, Alt(&[x::_r10, S("b")]))]))]);
    _r5 "_" = Alt(&[Alt(&[Seq(&[(T::O, Any), (T::N, x::r1), (T::N, x::r9)]), Seq(&[(T::N, S("b")), (T::N, x::r18), (T::N, S("("))]), Seq(&[(T::N, Opt(&x::r4)), (T::N, Opt(&S("b"))), (T::N, Opt(&x::r0)), (T::N, Opt(&S("b"))), (T::O, Opt(&x::r0)), (T::N, Opt(&x::r1)), (T::N, Opt(&S(")"))), (T::N, Opt(&S("()"))), (T::O, Opt(&x::r3)), (T::N, R('a', 'd')), (T::O, Opt(&x::r16)), (T::O, x::r11)])]), Alt(&[Opt(&S("(")), Seq(&[(T::N, S(")")), (T::N, x::r1), (T::N, x::_r8), (T::N, x::r6)])])]);
    r6 = Seq(&[(T::N, Alt(&[x::r0, x::_r5, S(")"), S("(")])), (T::N, Seq(&[(T::O, x::r0), (T::N, x::r16)])), (T::O, Seq(&[(T::N, S("b")), (T::N, S("a"))])), (T::N, Neg(&x::r12))]);
    r7 = x::_r2;
    _r8 "_" = Seq(&[(T::N, Opt(&R('c', 'd'))), (T::N, Pos(&Seq(&[(T::N, x::r3), (T::N, S("b"))])))]);
    r9 = Alt(&[Seq(&[(T::N, x::_r8), (T::N, Alt(&[S("b"), x::r0])), (T::N, Seq(&[(T::O, x::r7), (T::O, x::_r8)]))]), Alt(&[Alt(&[S("a"), S("b")]), Alt(&[x::r1, S("b)"), x::r1, S("(b")])]), x::r1, Alt(&[Seq(&[(T::N, Opt(&S("("))), (T::N, Opt(&S("(("))), (T::N, Opt(&S("("))), (T::O, S("b")), (T::N, Opt(&S("("))), (T::N, Opt(&x::r18)), (T::N, Opt(&x::_r10)), (T::N, x::_r17), (T::O, Opt(&x::r12)), (T::N, Opt(&S(")"))), (T::N, Opt(&S("b"))), (T::O, Opt(&S("(")))]), Alt(&[S(")"), x::r6, x::r4, x::_r5]), Opt(&S("(a"))])]);
    _r10 "_" = Rep(&Seq(&[(T::O, Seq(&[(T::O, x::r6), (T::O, S("a")), (T::O, S(")"))])), (T::N, Opt(&x::r11))]), 0, 2, T::N);
    r11 = Seq(&[(T::N, Opt(&Alt(&[S("))"), S("(")]))), (T::N, Seq(&[(T::N, Seq(&[(T::N, S(")b")), (T::N, x::_r17)])), (T::N, Seq(&[(T::N, x::_r17), (T::O, x::r12), (T::O, S("b")), (T::O, x::r13)])), (T::N, Neg(&Any))])), (T::O, Seq(&[(T::N, x::r3), (T::N, Rep(&S("("), 1, 1, T::N)), (T::N, Opt(&x::r15))]))]);
    r12 = Alt(&[Seq(&[(T::N, x::_r2), (T::N, R('a', 'a'))]), Seq(&[(T::N, S("a")), (T::O, S(")")), (T::O, x::r19)])]);
    r13 = S("b");
    r14 = Rep(&Alt(&[Alt(&[x::r4, x::r6, S("a")]), Seq(&[(T::N, S(")")), (T::N, x::r0), (T::N, S("(")), (T::N, x::r18)])]), 1, INF, T::N);
    r15 = Alt(&[Alt(&[Seq(&[(T::N, x::r12), (T::N, S(")")), (T::N, R('b', 'c')), (T::N, x::r13)]), Seq(&[(T::O, R('c', 'd')), (T::N, S("b")), (T::O, S(")"))])]), Alt(&[Seq(&[(T::N, x::r1), (T::N, S("a"))]), Alt(&[x::r3, S(")"), Opt(&R('b', 'd')), x::r7, Seq(&[(T::O, S("a")), (T::N, x::r15)]), Seq(&[(T::O, x::_r8), (T::N, x::r1), (T::N, S("("))]), Seq(&[(T::N, R('c', 'c')), (T::N, S("("))]), Neg(&S(")")), x::r14, Opt(&x::r9), S("a"), x::_r8, x::r0, x::r9, S("b"), Seq(&[(T::N, Opt(&S("b"))), (T::O, S("a(")), (T::N, x::r15), (T::N, Opt(&S("b"))), (T::N, Opt(&x::r16)), (T::N, Opt(&x::r12)), (T::N, x::_r2), (T::N, Opt(&Any))]), x::r12]), Seq(&[(T::O, x::_r10), (T::N, S("a")), (T::N, S("("))]), Opt(&Any)])]);
    r16 = Seq(&[(T::N, Seq(&[(T::N, S(")")), (T::N, Opt(&S(")")))])), (T::O, x::_r17), (T::N, Seq(&[(T::N, Seq(&[(T::N, x::_r5), (T::N, x::r3)])), (T::N, Seq(&[(T::N, S("))")), (T::N, S("a")), (T::N, S("b"))])), (T::N, Alt(&[x::r18, x::r18]))])), (T::N, Rep(&R('a', 'a'), 1, 2, T::N))]);
    _r17 "_" = Seq(&[(T::N, Seq(&[(T::O, x::r15), (T::N, Opt(&x::r4)), (T::O, Opt(&x::_r2)), (T::N, Opt(&x::_r2)), (T::O, Opt(&x::_r8)), (T::O, Opt(&Any)), (T::N, S("(")), (T::N, x::r19), (T::O, Opt(&x::_r10)), (T::N, Opt(&x::r19)), (T::N, Opt(&x::r18)), (T::O, Opt(&x::_r2)), (T::N, Opt(&R('a', 'b'))), (T::N, Opt(&S("("))), (T::N, Opt(&x::_r17)), (T::N, S(")")), (T::O, Opt(&S(")"))), (T::N, Opt(&x::_r17)), (T::N, x::r19), (T::O, Opt(&x::r19))])), (T::N, Seq(&[(T::N, Seq(&[(T::N, S("b)")), (T::N, S("("))])), (T::N, Alt(&[x::r18, S(")")])), (T::N, Opt(&x::_r17)), (T::N, S(")"))])), (T::N, Rep(&Seq(&[(T::N, S("(")), (T::N, S("a")), (T::N, S("("))]), 3, 3, T::O)), (T::N, x::r18)]);
    r18 = S("a");
    r19 = Alt(&[Rep(&R('a', 'c'), 1, 3, T::O), Seq(&[(T::O, x::r1), (T::O, x::r19), (T::N, x::r19)])]);
}
fn any_rec() -> usize { choose(100) }
#[allow(unused)] fn run_rec(k: usize, s: &'static str) { match k / 20 { 0 => { rec0::run(k % 20, s); } 1 => { rec1::run(k % 20, s); } 2 => { rec2::run(k % 20, s); } 3 => { rec3::run(k % 20, s); } 4 => { rec4::run(k % 20, s); } _ => {} } }
#[allow(unused)] fn visit_rec<V: Visit>(k: usize, v: &mut V) { match k / 20 { 0 => rec0::visit(k % 20, v), 1 => rec1::visit(k % 20, v), 2 => rec2::visit(k % 20, v), 3 => rec3::visit(k % 20, v), 4 => rec4::visit(k % 20, v), _ => {} } }
