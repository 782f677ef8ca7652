// Written by bin/mkgen.py.
suite! { mod mix0 = r##"
~ = " "
^ = "_"
r0 = pest::stack::pop_all
r1 = 'b'..'d' | pest::stack::peek
r2 = ("b" - r0) | pest::any | ("c" | "a" | 'a'..'c') | r0 | pest::stack::push(r1) | "b" | r1 | r1? | "a" | pest::newline | (r0 | r0) | (r0 | r0) | pest::stack::push(r1)
r3 = ('a'..'b')^{..2} | ('b'..'b')?
_r4 = _{ (("c" ~ i"a" ^ "a")~+)~{2} }
r5 = ("bc" | r1 | "c" | r2)?
r6 = !(pest::stack::push("b" - pest::any ~ "c"))
r7 = (r2? ~ "" ^ "." ~ r3? - "a" ^ i"a"? - r6 - r3?) - "a"^{0..1}
_r8 = _{ (_r4~{1..3}){1} - ((r1 | 'b'..'b' | r0 | r5) | r6?) }
r9 = (("aa"{2})+)?
r10 = "a"~{2} - &("." | r9 | "a" | r9)
r11 = r5
r12 = ("b" | pest::stack::peek) ^ &(r9) ~ ("c" | r6)
r13 = "c"
r14 = "a"~{..} | (pest::any)?
r15 = (r6 ^ r1 - pest::stack::pop ^ r14)?
_r16 = _{ ((r12 | pest::any | r5) - (pest::stack::pop - r2 ~ r12) - !(r1))? }
r17 = (pest::stack::push("b"))^{1} ^ (!(r14) - (i"a" - r3 - pest::any - i"b") - "c")
r18 = pest::stack::push("b" | r1)
_r19 = _{ _r4 ~ !(i"ab" ~ r17) - ("a"{1} - (r10 - r2 - "c")) }
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = PopAll;
    r1 = Alt(&[R('b', 'd'), Peek]);
    r2 = Alt(&[Seq(&[(T::N, S("b")), (T::N, x::r0)]), Any, Alt(&[S("c"), S("a"), R('a', 'c')]), x::r0, Push(&x::r1), S("b"), x::r1, Opt(&x::r1), S("a"), Nl, Alt(&[x::r0, x::r0]), Alt(&[x::r0, x::r0]), Push(&x::r1)]);
    r3 = Alt(&[Rep(&R('a', 'b'), 0, 2, T::M), Opt(&R('b', 'b'))]);
    _r4 "_" = Rep(&Rep(&Seq(&[(T::N, S("c")), (T::O, I("a")), (T::M, S("a"))]), 1, INF, T::O), 2, 2, T::O);
    r5 = Opt(&Alt(&[S("bc"), x::r1, S("c"), x::r2]));
    r6 = Neg(&Push(&Seq(&[(T::O, S("b")), (T::N, Any), (T::O, S("c"))])));
    r7 = Seq(&[(T::M, Seq(&[(T::O, Opt(&x::r2)), (T::O, S("")), (T::M, S(".")), (T::O, Opt(&x::r3)), (T::N, S("a")), (T::M, Opt(&I("a"))), (T::N, x::r6), (T::N, Opt(&x::r3))])), (T::N, Rep(&S("a"), 0, 1, T::M))]);
    _r8 "_" = Seq(&[(T::N, Rep(&Rep(&x::_r4, 1, 3, T::O), 1, 1, T::N)), (T::N, Alt(&[Alt(&[x::r1, R('b', 'b'), x::r0, x::r5]), Opt(&x::r6)]))]);
    r9 = Opt(&Rep(&Rep(&S("aa"), 2, 2, T::N), 1, INF, T::N));
    r10 = Seq(&[(T::N, Rep(&S("a"), 2, 2, T::O)), (T::N, Pos(&Alt(&[S("."), x::r9, S("a"), x::r9])))]);
    r11 = x::r5;
    r12 = Seq(&[(T::M, Alt(&[S("b"), Peek])), (T::M, Pos(&x::r9)), (T::O, Alt(&[S("c"), x::r6]))]);
    r13 = S("c");
    r14 = Alt(&[Rep(&S("a"), 0, INF, T::O), Opt(&Any)]);
    r15 = Opt(&Seq(&[(T::N, x::r6), (T::M, x::r1), (T::N, Pop), (T::M, x::r14)]));
    _r16 "_" = Opt(&Seq(&[(T::M, Alt(&[x::r12, Any, x::r5])), (T::N, Seq(&[(T::M, Pop), (T::N, x::r2), (T::O, x::r12)])), (T::N, Neg(&x::r1))]));
    r17 = Seq(&[(T::N, Rep(&Push(&S("b")), 1, 1, T::M)), (T::M, Seq(&[(T::N, Neg(&x::r14)), (T::N, Seq(&[(T::M, I("a")), (T::N, x::r3), (T::N, Any), (T::N, I("b"))])), (T::N, S("c"))]))]);
    r18 = Push(&Alt(&[S("b"), x::r1]));
    _r19 "_" = Seq(&[(T::O, x::_r4), (T::O, Neg(&Seq(&[(T::O, I("ab")), (T::O, x::r17)]))), (T::N, Seq(&[(T::N, Rep(&S("a"), 1, 1, T::N)), (T::N, Seq(&[(T::O, x::r10), (T::N, x::r2), (T::N, S("c"))]))]))]);
}
suite! { mod mix1 = r##"
~ = " "
^ = "_"
r0 = "a"
r1 = r0{2..}
r2 = i"a"?
r3 = (r1 - "b")^{3} ~ &("a"?)
r4 = r0
r5 = r4
r6 = "cb"~{..2} - pest::stack::push(r3) ~ (r1 | r4) ~ pest::stack::push(r2)
r7 = ((r1 ^ r4) ^ (r1 ~ 'c'..'c') - (pest::eoi | r5) - (r0 - pest::soi ~ r2)) - ((r0 ~ "c" - "c") - "bb"{1..}) ~ (('b'..'c' - r5) - pest::stack::pop - &("..")) - (pest::stack::push('a'..'a') | "b" | (r2 - "a" ~ "") | ("." ~ r6 ^ pest::stack::peek[-2..-1] - "b"))
r8 = ("" | (pest::any)? | "b" | r2 | ".") ^ (r3 ^ i"b" - pest::stack::pop)?
_r9 = _{ (&(pest::stack::pop_all) ^ ('a'..'b')* - r2?)? }
r10 = _r9 | (_r9 - r7? ~ 'a'..'d' ^ (pest::stack::peek_all)? ^ "b" - (pest::stack::peek[-1..2])? - ""? ^ "b"? - "."? - r0)
_r11 = _{ (pest::stack::peek[-2..] - "." ~ pest::stack::peek)~{1} - ((pest::newline)?)? }
r12 = pest::stack::push(!(pest::eoi - "" - "" - "cb"))
r13 = ((r3 - r0 - "." - "a"){0..1})?
_r14 = _{ (pest::stack::push(('a'..'b'){1..2}))? }
_r15 = _{ &(r10) - "ba"~{..} }
r16 = (r0 | "cc") - (_r11 ^ r12) - !(i"a")
r17 = (r6 | i"b1")* ~ ('a'..'d' - "b" - r0)* ~ "b"
r18 = r4 | ("a" ~ pest::stack::pop)
r19 = r3
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S("a");
    r1 = Rep(&x::r0, 2, INF, T::N);
    r2 = Opt(&I("a"));
    r3 = Seq(&[(T::N, Rep(&Seq(&[(T::N, x::r1), (T::N, S("b"))]), 3, 3, T::M)), (T::O, Pos(&Opt(&S("a"))))]);
    r4 = x::r0;
    r5 = x::r4;
    r6 = Seq(&[(T::M, Rep(&S("cb"), 0, 2, T::O)), (T::N, Push(&x::r3)), (T::O, Alt(&[x::r1, x::r4])), (T::O, Push(&x::r2))]);
    r7 = Seq(&[(T::N, Seq(&[(T::O, Seq(&[(T::N, x::r1), (T::M, x::r4)])), (T::M, Seq(&[(T::M, x::r1), (T::O, R('c', 'c'))])), (T::N, Alt(&[Eoi, x::r5])), (T::N, Seq(&[(T::N, x::r0), (T::N, Soi), (T::O, x::r2)]))])), (T::N, Seq(&[(T::M, Seq(&[(T::M, x::r0), (T::O, S("c")), (T::N, S("c"))])), (T::N, Rep(&S("bb"), 1, INF, T::N))])), (T::O, Seq(&[(T::N, Seq(&[(T::N, R('b', 'c')), (T::N, x::r5)])), (T::N, Pop), (T::N, Pos(&S("..")))])), (T::N, Alt(&[Push(&R('a', 'a')), S("b"), Seq(&[(T::M, x::r2), (T::N, S("a")), (T::O, S(""))]), Seq(&[(T::N, S(".")), (T::O, x::r6), (T::M, Slice(-2, Some(-1))), (T::N, S("b"))])]))]);
    r8 = Seq(&[(T::O, Alt(&[S(""), Opt(&Any), S("b"), x::r2, S(".")])), (T::M, Opt(&Seq(&[(T::N, x::r3), (T::M, I("b")), (T::N, Pop)])))]);
    _r9 "_" = Opt(&Seq(&[(T::N, Pos(&PopAll)), (T::M, Rep(&R('a', 'b'), 0, INF, T::N)), (T::N, Opt(&x::r2))]));
    r10 = Alt(&[x::_r9, Seq(&[(T::M, x::_r9), (T::N, Opt(&x::r7)), (T::O, R('a', 'd')), (T::M, Opt(&PeekAll)), (T::M, S("b")), (T::N, Opt(&Slice(-1, Some(2)))), (T::N, Opt(&S(""))), (T::M, Opt(&S("b"))), (T::N, Opt(&S("."))), (T::N, x::r0)])]);
    _r11 "_" = Seq(&[(T::N, Rep(&Seq(&[(T::N, Slice(-2, None)), (T::N, S(".")), (T::O, Peek)]), 1, 1, T::O)), (T::N, Opt(&Opt(&Nl)))]);
    r12 = Push(&Neg(&Seq(&[(T::N, Eoi), (T::N, S("")), (T::N, S("")), (T::N, S("cb"))])));
    r13 = Opt(&Rep(&Seq(&[(T::M, x::r3), (T::N, x::r0), (T::N, S(".")), (T::N, S("a"))]), 0, 1, T::N));
    _r14 "_" = Opt(&Push(&Rep(&R('a', 'b'), 1, 2, T::N)));
    _r15 "_" = Seq(&[(T::M, Pos(&x::r10)), (T::N, Rep(&S("ba"), 0, INF, T::O))]);
    r16 = Seq(&[(T::O, Alt(&[x::r0, S("cc")])), (T::N, Seq(&[(T::M, x::_r11), (T::M, x::r12)])), (T::N, Neg(&I("a")))]);
    r17 = Seq(&[(T::M, Rep(&Alt(&[x::r6, I("b1")]), 0, INF, T::N)), (T::O, Rep(&Seq(&[(T::M, R('a', 'd')), (T::N, S("b")), (T::N, x::r0)]), 0, INF, T::N)), (T::O, S("b"))]);
    r18 = Alt(&[x::r4, Seq(&[(T::N, S("a")), (T::O, Pop)])]);
    r19 = x::r3;
}
suite! { mod mix2 = r##"
~ = " "
^ = "_"
r0 = "c"
_r1 = _{ 'a'..'a' - r0 - r0 }
r2 = 'a'..'a' | r0
r3 = pest::stack::push(_r1{2}) ^ (pest::any ^ _r1 ~ ".")?
r4 = (i"b1" | r0)^{3}
r5 = ("a" | r2 | "a"){1..2}
_r6 = _{ ((_r1 - _r1 - 'a'..'b' ^ "c"){3}){1..2} }
r7 = ("b" | r0) | pest::stack::push(pest::any)
r8 = (r5{2})~{1..3}
r9 = ((r0 - pest::stack::peek) - pest::stack::push("b") ~ &(".b") ~ r5)?
r10 = ((pest::stack::peek)? ~ (pest::any)~{1..2}) - ("ab" | pest::stack::push(".c") | r3^{2} | "a"?) ~ (!(i"a") ~ ("." | r8 | pest::stack::pop) ~ (r4 | "c") ^ r8{..2}) - ("."? - ("c" ^ pest::any - r0 - r3))
_r11 = _{ (r2 ^ ("b" | r0))? }
r12 = ("c"{3}){..} - ((r3 | r5 | _r6) ~ (pest::stack::pop ^ r7 ^ ".b" ^ "b") ^ (pest::any)?)
r13 = (_r1?)?
r14 = &(!("c"))
r15 = pest::stack::push(r7 | ("a" - "bb") | "c" | r10)
r16 = ("b" | "bb" | pest::any) - "a"? ^ &("a") - (r3 ^ r13 ~ r3 - i"bb")
r17 = (pest::stack::peek | _r6 | r3)? - r13 - ("."? ^ (pest::any - "b") ^ ("c" ^ "cc" ~ r4 - pest::eoi) - "c"?)
_r18 = _{ (r5 | r15 | r17) | !('a'..'b') | (pest::stack::peek | "a" | i"ab") | &('a'..'c') }
_r19 = _{ ("a"? - (r0 | ".") ^ (r3? - r16? - r10 - (pest::any)? - r9? ^ r0? ^ pest::stack::pop_all ^ r10 ~ "c"? - "a"? - _r11 - pest::stack::peek))^{..2} }
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S("c");
    _r1 "_" = Seq(&[(T::N, R('a', 'a')), (T::N, x::r0), (T::N, x::r0)]);
    r2 = Alt(&[R('a', 'a'), x::r0]);
    r3 = Seq(&[(T::N, Push(&Rep(&x::_r1, 2, 2, T::N))), (T::M, Opt(&Seq(&[(T::N, Any), (T::M, x::_r1), (T::O, S("."))])))]);
    r4 = Rep(&Alt(&[I("b1"), x::r0]), 3, 3, T::M);
    r5 = Rep(&Alt(&[S("a"), x::r2, S("a")]), 1, 2, T::N);
    _r6 "_" = Rep(&Rep(&Seq(&[(T::N, x::_r1), (T::N, x::_r1), (T::N, R('a', 'b')), (T::M, S("c"))]), 3, 3, T::N), 1, 2, T::N);
    r7 = Alt(&[Alt(&[S("b"), x::r0]), Push(&Any)]);
    r8 = Rep(&Rep(&x::r5, 2, 2, T::N), 1, 3, T::O);
    r9 = Opt(&Seq(&[(T::N, Seq(&[(T::N, x::r0), (T::N, Peek)])), (T::N, Push(&S("b"))), (T::O, Pos(&S(".b"))), (T::O, x::r5)]));
    r10 = Seq(&[(T::M, Seq(&[(T::N, Opt(&Peek)), (T::O, Rep(&Any, 1, 2, T::O))])), (T::N, Alt(&[S("ab"), Push(&S(".c")), Rep(&x::r3, 2, 2, T::M), Opt(&S("a"))])), (T::O, Seq(&[(T::N, Neg(&I("a"))), (T::O, Alt(&[S("."), x::r8, Pop])), (T::O, Alt(&[x::r4, S("c")])), (T::M, Rep(&x::r8, 0, 2, T::N))])), (T::N, Seq(&[(T::M, Opt(&S("."))), (T::N, Seq(&[(T::N, S("c")), (T::M, Any), (T::N, x::r0), (T::N, x::r3)]))]))]);
    _r11 "_" = Opt(&Seq(&[(T::O, x::r2), (T::M, Alt(&[S("b"), x::r0]))]));
    r12 = Seq(&[(T::O, Rep(&Rep(&S("c"), 3, 3, T::N), 0, INF, T::N)), (T::N, Seq(&[(T::N, Alt(&[x::r3, x::r5, x::_r6])), (T::O, Seq(&[(T::O, Pop), (T::M, x::r7), (T::M, S(".b")), (T::M, S("b"))])), (T::M, Opt(&Any))]))]);
    r13 = Opt(&Opt(&x::_r1));
    r14 = Pos(&Neg(&S("c")));
    r15 = Push(&Alt(&[x::r7, Seq(&[(T::N, S("a")), (T::N, S("bb"))]), S("c"), x::r10]));
    r16 = Seq(&[(T::N, Alt(&[S("b"), S("bb"), Any])), (T::N, Opt(&S("a"))), (T::M, Pos(&S("a"))), (T::N, Seq(&[(T::N, x::r3), (T::M, x::r13), (T::O, x::r3), (T::N, I("bb"))]))]);
    r17 = Seq(&[(T::N, Opt(&Alt(&[Peek, x::_r6, x::r3]))), (T::N, x::r13), (T::N, Seq(&[(T::N, Opt(&S("."))), (T::M, Seq(&[(T::O, Any), (T::N, S("b"))])), (T::M, Seq(&[(T::M, S("c")), (T::M, S("cc")), (T::O, x::r4), (T::N, Eoi)])), (T::N, Opt(&S("c")))]))]);
    _r18 "_" = Alt(&[Alt(&[x::r5, x::r15, x::r17]), Neg(&R('a', 'b')), Alt(&[Peek, S("a"), I("ab")]), Pos(&R('a', 'c'))]);
    _r19 "_" = Rep(&Seq(&[(T::O, Opt(&S("a"))), (T::N, Alt(&[x::r0, S(".")])), (T::M, Seq(&[(T::O, Opt(&x::r3)), (T::N, Opt(&x::r16)), (T::N, x::r10), (T::N, Opt(&Any)), (T::N, Opt(&x::r9)), (T::M, Opt(&x::r0)), (T::M, PopAll), (T::M, x::r10), (T::O, Opt(&S("c"))), (T::N, Opt(&S("a"))), (T::N, x::_r11), (T::N, Peek)]))]), 0, 2, T::M);
}
suite! { mod mix3 = r##"
~ = " "
^ = "_"
r0 = "c"
r1 = r0?
_r2 = _{ r0 | pest::any | r0 | "." }
_r3 = _{ !("b") }
r4 = (("." ^ r1 - pest::stack::pop_all) - !(".c"))+
r5 = (!(r1?))?
_r6 = _{ pest::stack::push(r0?) - (pest::eoi - 'c'..'c' ~ 'a'..'a')~+ - "b."? }
r7 = !(_r6)
r8 = ("a" | "b")?
r9 = ("c"? ~ (_r2 - 'b'..'b') ~ !("c."))^{..2}
r10 = &((_r3 | r4) - pest::stack::push("ca") - (r0 | pest::stack::pop | pest::newline) ^ (pest::stack::peek | ".b" | r4))
r11 = "c"? - r4? ^ r5? - "a"? - "ba"? - r9? ^ "b"? - r5? - pest::stack::peek[-2..2] - "c"? - "."? ~ "."?
r12 = pest::stack::push("c" - pest::stack::peek - i"a1")
r13 = !(_r2 | "b.") ~ &(r9 - "c" - _r2)
r14 = (r8 | r11 | r13 | r10) - ("a" | ".c") - "a"{1..3}
r15 = ("" | _r6)?
r16 = ("." ~ "c" - pest::any)*
r17 = ((r8 | r15) ^ r12{2..}) - ("." | "b")+ ^ (&("a") | _r2~{2..} | ("c" - "b" ^ r0 - i"b"))
_r18 = _{ (r12 - (r10 ~ "b" - "c" ^ _r3)) ^ (('c'..'c'){3} - (r14 | "" | "." | pest::stack::pop_all)) ^ ("c" | r11 | "a" | (r8 - pest::stack::peek_all ^ _r3) | r9) }
r19 = (&(pest::newline) - pest::stack::push(i"bb") - (r8 ^ "b") ^ ("c" | pest::stack::peek[-2..] | r11)) ^ (pest::stack::push("a") - "b"? - "a"^{..})
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S("c");
    r1 = Opt(&x::r0);
    _r2 "_" = Alt(&[x::r0, Any, x::r0, S(".")]);
    _r3 "_" = Neg(&S("b"));
    r4 = Rep(&Seq(&[(T::N, Seq(&[(T::N, S(".")), (T::M, x::r1), (T::N, PopAll)])), (T::N, Neg(&S(".c")))]), 1, INF, T::N);
    r5 = Opt(&Neg(&Opt(&x::r1)));
    _r6 "_" = Seq(&[(T::N, Push(&Opt(&x::r0))), (T::N, Rep(&Seq(&[(T::N, Eoi), (T::N, R('c', 'c')), (T::O, R('a', 'a'))]), 1, INF, T::O)), (T::N, Opt(&S("b.")))]);
    r7 = Neg(&x::_r6);
    r8 = Opt(&Alt(&[S("a"), S("b")]));
    r9 = Rep(&Seq(&[(T::O, Opt(&S("c"))), (T::O, Seq(&[(T::N, x::_r2), (T::N, R('b', 'b'))])), (T::O, Neg(&S("c.")))]), 0, 2, T::M);
    r10 = Pos(&Seq(&[(T::N, Alt(&[x::_r3, x::r4])), (T::N, Push(&S("ca"))), (T::N, Alt(&[x::r0, Pop, Nl])), (T::M, Alt(&[Peek, S(".b"), x::r4]))]));
    r11 = Seq(&[(T::N, Opt(&S("c"))), (T::N, Opt(&x::r4)), (T::M, Opt(&x::r5)), (T::N, Opt(&S("a"))), (T::N, Opt(&S("ba"))), (T::N, Opt(&x::r9)), (T::M, Opt(&S("b"))), (T::N, Opt(&x::r5)), (T::N, Slice(-2, Some(2))), (T::N, Opt(&S("c"))), (T::N, Opt(&S("."))), (T::O, Opt(&S(".")))]);
    r12 = Push(&Seq(&[(T::N, S("c")), (T::N, Peek), (T::N, I("a1"))]));
    r13 = Seq(&[(T::M, Neg(&Alt(&[x::_r2, S("b.")]))), (T::O, Pos(&Seq(&[(T::M, x::r9), (T::N, S("c")), (T::N, x::_r2)])))]);
    r14 = Seq(&[(T::N, Alt(&[x::r8, x::r11, x::r13, x::r10])), (T::N, Alt(&[S("a"), S(".c")])), (T::N, Rep(&S("a"), 1, 3, T::N))]);
    r15 = Opt(&Alt(&[S(""), x::_r6]));
    r16 = Rep(&Seq(&[(T::N, S(".")), (T::O, S("c")), (T::N, Any)]), 0, INF, T::N);
    r17 = Seq(&[(T::N, Seq(&[(T::N, Alt(&[x::r8, x::r15])), (T::M, Rep(&x::r12, 2, INF, T::N))])), (T::N, Rep(&Alt(&[S("."), S("b")]), 1, INF, T::N)), (T::M, Alt(&[Pos(&S("a")), Rep(&x::_r2, 2, INF, T::O), Seq(&[(T::N, S("c")), (T::N, S("b")), (T::M, x::r0), (T::N, I("b"))])]))]);
    _r18 "_" = Seq(&[(T::M, Seq(&[(T::O, x::r12), (T::N, Seq(&[(T::M, x::r10), (T::O, S("b")), (T::N, S("c")), (T::M, x::_r3)]))])), (T::M, Seq(&[(T::N, Rep(&R('c', 'c'), 3, 3, T::N)), (T::N, Alt(&[x::r14, S(""), S("."), PopAll]))])), (T::M, Alt(&[S("c"), x::r11, S("a"), Seq(&[(T::N, x::r8), (T::N, PeekAll), (T::M, x::_r3)]), x::r9]))]);
    r19 = Seq(&[(T::M, Seq(&[(T::N, Pos(&Nl)), (T::N, Push(&I("bb"))), (T::N, Seq(&[(T::O, x::r8), (T::M, S("b"))])), (T::M, Alt(&[S("c"), Slice(-2, None), x::r11]))])), (T::M, Seq(&[(T::O, Push(&S("a"))), (T::N, Opt(&S("b"))), (T::N, Rep(&S("a"), 0, INF, T::M))]))]);
}
suite! { mod mix4 = r##"
~ = " "
^ = "_"
r0 = "."
_r1 = _{ i"bb" ^ r0 ^ r0 ^ "c." }
_r2 = _{ _r1{1} }
r3 = r0 | pest::stack::push(pest::any) | 'a'..'d' | _r1 | (_r1 | pest::stack::drop | r0) | r0? | (r0 - pest::newline)
_r4 = _{ ("." - r0 ^ "b") - &(pest::newline) ~ (".a" | _r1 | pest::stack::peek[..] | pest::any) }
r5 = (i"bb"? ~ ("c" - pest::stack::pop_all)) | ("a"{2..} | ("a" - pest::newline)) | &(pest::stack::drop)
r6 = (pest::stack::push(r3))? | _r1
_r7 = _{ !(pest::stack::push(i"ab"~+)) }
r8 = (("c" - r5 - "aa" - _r1) ^ ("a" - "a" - _r7) - "")?
r9 = (_r1^{2} - ('a'..'b' - r0) ^ ("" ^ "." ~ 'a'..'c' - _r4)) - !(pest::stack::push('a'..'b'))
_r10 = _{ (pest::stack::push(r9) | "c") - ((".a" | _r4 | _r2) - (pest::eoi)? - "b") }
_r11 = _{ (r9{1..} | ("a" | _r10) | ("b" | "b" | i"a1" | ".") | (pest::stack::pop | r0 | pest::stack::peek[2..] | _r10))? }
r12 = 'a'..'a' | !(!(r8))
r13 = &(!("c")) ^ (&(pest::stack::peek[..-1]) - (r0? - "b"? - r3? ^ "a"? - "b"? - _r11 ^ "a"? ^ "b" - (pest::newline)? - r5? ~ 'a'..'c' ^ r6? - "."?) ^ (pest::stack::drop - _r2)) - (pest::stack::peek - r8 ~ "ba" - "ac"){1..3}
_r14 = _{ "." }
_r15 = _{ ((_r4 | "c"? | &(".") | ('a'..'c' | "." | r12 | (pest::stack::pop_all)? | r13 | ("a" - _r11 - pest::stack::peek) | ('c'..'d'){1}) | "c" | ("" | r9 | "." | 'b'..'b') | pest::any | (r12 ~ pest::stack::peek[2..-1] ~ r6)) | "b"? | "."{..2} | &(_r7)) - (("c" | "a.") - !("c")) }
_r16 = _{ "" }
r17 = pest::stack::push(i"b"{1})
r18 = !(&(pest::newline)) | r9~*
r19 = "ca"
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S(".");
    _r1 "_" = Seq(&[(T::N, I("bb")), (T::M, x::r0), (T::M, x::r0), (T::M, S("c."))]);
    _r2 "_" = Rep(&x::_r1, 1, 1, T::N);
    r3 = Alt(&[x::r0, Push(&Any), R('a', 'd'), x::_r1, Alt(&[x::_r1, Drop, x::r0]), Opt(&x::r0), Seq(&[(T::M, x::r0), (T::N, Nl)])]);
    _r4 "_" = Seq(&[(T::O, Seq(&[(T::N, S(".")), (T::N, x::r0), (T::M, S("b"))])), (T::N, Pos(&Nl)), (T::O, Alt(&[S(".a"), x::_r1, Slice(0, None), Any]))]);
    r5 = Alt(&[Seq(&[(T::O, Opt(&I("bb"))), (T::O, Seq(&[(T::N, S("c")), (T::N, PopAll)]))]), Alt(&[Rep(&S("a"), 2, INF, T::N), Seq(&[(T::N, S("a")), (T::N, Nl)])]), Pos(&Drop)]);
    r6 = Alt(&[Opt(&Push(&x::r3)), x::_r1]);
    _r7 "_" = Neg(&Push(&Rep(&I("ab"), 1, INF, T::O)));
    r8 = Opt(&Seq(&[(T::M, Seq(&[(T::N, S("c")), (T::N, x::r5), (T::N, S("aa")), (T::N, x::_r1)])), (T::M, Seq(&[(T::N, S("a")), (T::N, S("a")), (T::N, x::_r7)])), (T::N, S(""))]));
    r9 = Seq(&[(T::M, Seq(&[(T::N, Rep(&x::_r1, 2, 2, T::M)), (T::N, Seq(&[(T::N, R('a', 'b')), (T::N, x::r0)])), (T::M, Seq(&[(T::O, S("")), (T::M, S(".")), (T::O, R('a', 'c')), (T::N, x::_r4)]))])), (T::N, Neg(&Push(&R('a', 'b'))))]);
    _r10 "_" = Seq(&[(T::M, Alt(&[Push(&x::r9), S("c")])), (T::N, Seq(&[(T::M, Alt(&[S(".a"), x::_r4, x::_r2])), (T::N, Opt(&Eoi)), (T::N, S("b"))]))]);
    _r11 "_" = Opt(&Alt(&[Rep(&x::r9, 1, INF, T::N), Alt(&[S("a"), x::_r10]), Alt(&[S("b"), S("b"), I("a1"), S(".")]), Alt(&[Pop, x::r0, Slice(2, None), x::_r10])]));
    r12 = Alt(&[R('a', 'a'), Neg(&Neg(&x::r8))]);
    r13 = Seq(&[(T::M, Pos(&Neg(&S("c")))), (T::M, Seq(&[(T::O, Pos(&Slice(0, Some(-1)))), (T::N, Seq(&[(T::O, Opt(&x::r0)), (T::N, Opt(&S("b"))), (T::N, Opt(&x::r3)), (T::M, Opt(&S("a"))), (T::N, Opt(&S("b"))), (T::N, x::_r11), (T::M, Opt(&S("a"))), (T::M, S("b")), (T::N, Opt(&Nl)), (T::N, Opt(&x::r5)), (T::O, R('a', 'c')), (T::M, Opt(&x::r6)), (T::N, Opt(&S(".")))])), (T::M, Seq(&[(T::O, Drop), (T::N, x::_r2)]))])), (T::N, Rep(&Seq(&[(T::N, Peek), (T::N, x::r8), (T::O, S("ba")), (T::N, S("ac"))]), 1, 3, T::N))]);
    _r14 "_" = S(".");
    _r15 "_" = Seq(&[(T::N, Alt(&[Alt(&[x::_r4, Opt(&S("c")), Pos(&S(".")), Alt(&[R('a', 'c'), S("."), x::r12, Opt(&PopAll), x::r13, Seq(&[(T::M, S("a")), (T::N, x::_r11), (T::N, Peek)]), Rep(&R('c', 'd'), 1, 1, T::N)]), S("c"), Alt(&[S(""), x::r9, S("."), R('b', 'b')]), Any, Seq(&[(T::O, x::r12), (T::O, Slice(2, Some(-1))), (T::O, x::r6)])]), Opt(&S("b")), Rep(&S("."), 0, 2, T::N), Pos(&x::_r7)])), (T::N, Seq(&[(T::O, Alt(&[S("c"), S("a.")])), (T::N, Neg(&S("c")))]))]);
    _r16 "_" = S("");
    r17 = Push(&Rep(&I("b"), 1, 1, T::N));
    r18 = Alt(&[Neg(&Pos(&Nl)), Rep(&x::r9, 0, INF, T::O)]);
    r19 = S("ca");
}
fn any_mix() -> usize { choose(100) }
#[allow(unused)] fn run_mix(k: usize, s: &'static str) { match k / 20 { 0 => { mix0::run(k % 20, s); } 1 => { mix1::run(k % 20, s); } 2 => { mix2::run(k % 20, s); } 3 => { mix3::run(k % 20, s); } 4 => { mix4::run(k % 20, s); } _ => {} } }
#[allow(unused)] fn visit_mix<V: Visit>(k: usize, v: &mut V) { match k / 20 { 0 => mix0::visit(k % 20, v), 1 => mix1::visit(k % 20, v), 2 => mix2::visit(k % 20, v), 3 => mix3::visit(k % 20, v), 4 => mix4::visit(k % 20, v), _ => {} } }
