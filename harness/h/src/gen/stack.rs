// Written by bin/mkgen.py.
suite! { mod stack0 = r##"
~ = " "
^ = "_"
r0 = pest::stack::pop
r1 = "ba"?
r2 = "b" - pest::stack::pop
r3 = ((pest::any | r2 | "a") | (pest::stack::peek[2..1] - r1 - r1)) | (pest::stack::push(pest::stack::pop))?
r4 = pest::stack::push((pest::stack::peek - 'c'..'c' ~ pest::stack::peek[-2..2]){1..})
_r5 = _{ "a" }
r6 = ((pest::any - r4 - "a" - pest::stack::peek)+)?
_r7 = _{ _r5? - "a" - 'a'..'b' - pest::stack::peek[-1..-1] - r4? - "a" ~ (pest::any)? ~ pest::stack::pop ~ "a" - (pest::stack::peek[1..2])? - "ab" - r3? - (pest::any)? }
r8 = pest::stack::push((pest::any)? ~ "a"? - (pest::any)? ~ "b"? - r2 - "a"? ~ ('c'..'d')? - (pest::stack::peek)? - ('a'..'d')? - (pest::stack::peek)? - (pest::stack::pop)? - (pest::stack::pop)? - "b"?)
r9 = pest::stack::push((!(pest::stack::peek_all))?)
_r10 = _{ pest::stack::push("aa"?) }
r11 = &((pest::stack::peek[0..2])?) ~ pest::stack::push(pest::stack::peek_all) - ((pest::stack::peek[0..2] ~ "b" - pest::any) - ("b" - pest::stack::pop ~ pest::stack::peek) - pest::stack::push(pest::stack::peek_all) - (pest::stack::peek_all - "b" - pest::stack::peek_all))
r12 = ("b"~+ - (pest::stack::drop - "bb" ~ pest::any ~ "a") - "aa"+) | (pest::stack::push(pest::stack::peek) | "b" | "a" | "b" | "a"? | _r7 | "a" | _r10 | pest::stack::peek[-2..-1] | _r10) | (pest::stack::push(pest::stack::drop) - (pest::stack::drop - "b") - (pest::stack::peek | "b" | r11) - "b"{1..2})
r13 = pest::stack::push(r1?)
r14 = &("b"~{2..})
r15 = pest::stack::push((r8 - pest::stack::peek - pest::any) | (pest::stack::peek_all ~ (pest::stack::drop)? ~ r6? - pest::any - pest::stack::peek ~ "b" - (pest::stack::peek)? - pest::stack::peek[..] ~ r6? - r9 ~ (pest::stack::pop)? - "a"? - ('a'..'b')? ~ "b" - "b"? - (pest::stack::peek_all)? ~ pest::stack::peek_all) | pest::stack::push("b") | r0)
r16 = (('a'..'a' - pest::any - r8 ~ pest::stack::pop) - r12 ~ pest::stack::push(pest::stack::peek[-1..1]) - pest::stack::push(pest::stack::drop)) | (pest::stack::push("bb"))? | ((r2 | pest::any | "b") ~ pest::any - r8{..})
_r17 = _{ pest::stack::push((pest::stack::pop)?) }
r18 = pest::stack::push(pest::stack::push(r8 | pest::stack::pop | "b"))
_r19 = _{ pest::stack::push((_r7 - "b" - r3) - (_r17 - pest::any) - (pest::stack::pop - pest::stack::peek - r1) - (r4 - "b" - pest::any)) }
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = Pop;
    r1 = Opt(&S("ba"));
    r2 = Seq(&[(T::N, S("b")), (T::N, Pop)]);
    r3 = Alt(&[Alt(&[Alt(&[Any, x::r2, S("a")]), Seq(&[(T::O, Slice(2, Some(1))), (T::N, x::r1), (T::N, x::r1)])]), Opt(&Push(&Pop))]);
    r4 = Push(&Rep(&Seq(&[(T::N, Peek), (T::N, R('c', 'c')), (T::O, Slice(-2, Some(2)))]), 1, INF, T::N));
    _r5 "_" = S("a");
    r6 = Opt(&Rep(&Seq(&[(T::N, Any), (T::N, x::r4), (T::N, S("a")), (T::N, Peek)]), 1, INF, T::N));
    _r7 "_" = Seq(&[(T::N, Opt(&x::_r5)), (T::N, S("a")), (T::N, R('a', 'b')), (T::N, Slice(-1, Some(-1))), (T::N, Opt(&x::r4)), (T::N, S("a")), (T::O, Opt(&Any)), (T::O, Pop), (T::O, S("a")), (T::N, Opt(&Slice(1, Some(2)))), (T::N, S("ab")), (T::N, Opt(&x::r3)), (T::N, Opt(&Any))]);
    r8 = Push(&Seq(&[(T::N, Opt(&Any)), (T::O, Opt(&S("a"))), (T::N, Opt(&Any)), (T::O, Opt(&S("b"))), (T::N, x::r2), (T::N, Opt(&S("a"))), (T::O, Opt(&R('c', 'd'))), (T::N, Opt(&Peek)), (T::N, Opt(&R('a', 'd'))), (T::N, Opt(&Peek)), (T::N, Opt(&Pop)), (T::N, Opt(&Pop)), (T::N, Opt(&S("b")))]));
    r9 = Push(&Opt(&Neg(&PeekAll)));
    _r10 "_" = Push(&Opt(&S("aa")));
    r11 = Seq(&[(T::N, Pos(&Opt(&Slice(0, Some(2))))), (T::O, Push(&PeekAll)), (T::N, Seq(&[(T::N, Seq(&[(T::N, Slice(0, Some(2))), (T::O, S("b")), (T::N, Any)])), (T::N, Seq(&[(T::O, S("b")), (T::N, Pop), (T::O, Peek)])), (T::N, Push(&PeekAll)), (T::N, Seq(&[(T::N, PeekAll), (T::N, S("b")), (T::N, PeekAll)]))]))]);
    r12 = Alt(&[Seq(&[(T::N, Rep(&S("b"), 1, INF, T::O)), (T::N, Seq(&[(T::O, Drop), (T::N, S("bb")), (T::O, Any), (T::O, S("a"))])), (T::N, Rep(&S("aa"), 1, INF, T::N))]), Alt(&[Push(&Peek), S("b"), S("a"), S("b"), Opt(&S("a")), x::_r7, S("a"), x::_r10, Slice(-2, Some(-1)), x::_r10]), Seq(&[(T::N, Push(&Drop)), (T::N, Seq(&[(T::N, Drop), (T::N, S("b"))])), (T::N, Alt(&[Peek, S("b"), x::r11])), (T::N, Rep(&S("b"), 1, 2, T::N))])]);
    r13 = Push(&Opt(&x::r1));
    r14 = Pos(&Rep(&S("b"), 2, INF, T::O));
    r15 = Push(&Alt(&[Seq(&[(T::O, x::r8), (T::N, Peek), (T::N, Any)]), Seq(&[(T::N, PeekAll), (T::O, Opt(&Drop)), (T::O, Opt(&x::r6)), (T::N, Any), (T::N, Peek), (T::O, S("b")), (T::N, Opt(&Peek)), (T::N, Slice(0, None)), (T::O, Opt(&x::r6)), (T::N, x::r9), (T::O, Opt(&Pop)), (T::N, Opt(&S("a"))), (T::N, Opt(&R('a', 'b'))), (T::O, S("b")), (T::N, Opt(&S("b"))), (T::N, Opt(&PeekAll)), (T::O, PeekAll)]), Push(&S("b")), x::r0]));
    r16 = Alt(&[Seq(&[(T::O, Seq(&[(T::N, R('a', 'a')), (T::N, Any), (T::N, x::r8), (T::O, Pop)])), (T::N, x::r12), (T::O, Push(&Slice(-1, Some(1)))), (T::N, Push(&Drop))]), Opt(&Push(&S("bb"))), Seq(&[(T::O, Alt(&[x::r2, Any, S("b")])), (T::O, Any), (T::N, Rep(&x::r8, 0, INF, T::N))])]);
    _r17 "_" = Push(&Opt(&Pop));
    r18 = Push(&Push(&Alt(&[x::r8, Pop, S("b")])));
    _r19 "_" = Push(&Seq(&[(T::N, Seq(&[(T::N, x::_r7), (T::N, S("b")), (T::N, x::r3)])), (T::N, Seq(&[(T::O, x::_r17), (T::N, Any)])), (T::N, Seq(&[(T::N, Pop), (T::N, Peek), (T::N, x::r1)])), (T::N, Seq(&[(T::O, x::r4), (T::N, S("b")), (T::N, Any)]))]));
}
suite! { mod stack1 = r##"
~ = " "
^ = "_"
r0 = pest::stack::peek
r1 = r0 - 'c'..'d' - r0
r2 = (pest::any)~{2..}
r3 = (pest::stack::push("a") - pest::stack::push(r2) - pest::stack::push(pest::stack::peek[2..]) - pest::stack::push(pest::any)) - pest::stack::push(pest::stack::push(pest::any))
r4 = pest::stack::peek[..2]
_r5 = _{ pest::stack::peek[-1..] - pest::stack::push("ba" - r0 - "a" - pest::stack::peek[1..2]) }
_r6 = _{ pest::stack::push("ab"?) }
r7 = (_r5 - (pest::stack::peek_all)?){1..2}
_r8 = _{ ((pest::any | _r5){2..}){2} }
r9 = ("a"? | pest::stack::push(_r8) | pest::stack::push(_r6) | "a"*)?
r10 = ("a"+){0..1}
_r11 = _{ (pest::any | pest::stack::push(pest::stack::peek) | (("a" | "a" | pest::stack::peek) | r9? | ('b'..'d' - pest::stack::peek - pest::stack::peek - "b") | r7? | pest::stack::peek | pest::stack::peek | pest::any | pest::stack::peek_all | "a" | "a" | r4 | ('a'..'b')?) | "b") - &(pest::stack::push(pest::stack::peek_all)) ~ ((pest::stack::pop_all - "a") | (pest::stack::peek ~ "b") | !(r1)) ~ (("b" - pest::stack::peek[..] ~ "b") | "b"{..2} | "bb"{1}) }
r12 = (r2{2..} - (pest::stack::peek[1..2] - pest::stack::pop - "b") - r3 - &(pest::stack::pop))+
r13 = "b"
r14 = ((r4 | pest::stack::pop | _r6) - "b"? - ("a"? - _r11 - (pest::stack::pop)? - (pest::any)? - (pest::stack::peek[..1])? - (pest::any)? - pest::any)) | ("b"~{2} | "b"~{1..3})
_r15 = _{ pest::stack::push(pest::stack::drop) - (pest::stack::peek[..2] | pest::stack::pop) - (r2 - pest::stack::peek - pest::stack::peek) }
_r16 = _{ pest::stack::drop - 'b'..'c' - "b" ~ "b"? - r9? - "a"? - _r15? ~ r3? ~ (pest::stack::pop)? - pest::stack::peek[0..2] }
r17 = "b"
r18 = ((('a'..'c')? - "b"? - r2? - (pest::stack::peek[1..2])? - pest::stack::pop - 'b'..'c' - "a" ~ 'a'..'d' - "a"? - (pest::stack::peek[2..0])? - "b"? - "a" - _r11?){1})?
r19 = ((pest::stack::peek | "b")?)?
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = Peek;
    r1 = Seq(&[(T::N, x::r0), (T::N, R('c', 'd')), (T::N, x::r0)]);
    r2 = Rep(&Any, 2, INF, T::O);
    r3 = Seq(&[(T::N, Seq(&[(T::O, Push(&S("a"))), (T::N, Push(&x::r2)), (T::N, Push(&Slice(2, None))), (T::N, Push(&Any))])), (T::N, Push(&Push(&Any)))]);
    r4 = Slice(0, Some(2));
    _r5 "_" = Seq(&[(T::N, Slice(-1, None)), (T::N, Push(&Seq(&[(T::N, S("ba")), (T::N, x::r0), (T::N, S("a")), (T::N, Slice(1, Some(2)))])))]);
    _r6 "_" = Push(&Opt(&S("ab")));
    r7 = Rep(&Seq(&[(T::N, x::_r5), (T::N, Opt(&PeekAll))]), 1, 2, T::N);
    _r8 "_" = Rep(&Rep(&Alt(&[Any, x::_r5]), 2, INF, T::N), 2, 2, T::N);
    r9 = Opt(&Alt(&[Opt(&S("a")), Push(&x::_r8), Push(&x::_r6), Rep(&S("a"), 0, INF, T::N)]));
    r10 = Rep(&Rep(&S("a"), 1, INF, T::N), 0, 1, T::N);
    _r11 "_" = Seq(&[(T::O, Alt(&[Any, Push(&Peek), Alt(&[Alt(&[S("a"), S("a"), Peek]), Opt(&x::r9), Seq(&[(T::N, R('b', 'd')), (T::N, Peek), (T::N, Peek), (T::N, S("b"))]), Opt(&x::r7), Peek, Peek, Any, PeekAll, S("a"), S("a"), x::r4, Opt(&R('a', 'b'))]), S("b")])), (T::N, Pos(&Push(&PeekAll))), (T::O, Alt(&[Seq(&[(T::N, PopAll), (T::N, S("a"))]), Seq(&[(T::N, Peek), (T::O, S("b"))]), Neg(&x::r1)])), (T::O, Alt(&[Seq(&[(T::N, S("b")), (T::N, Slice(0, None)), (T::O, S("b"))]), Rep(&S("b"), 0, 2, T::N), Rep(&S("bb"), 1, 1, T::N)]))]);
    r12 = Rep(&Seq(&[(T::N, Rep(&x::r2, 2, INF, T::N)), (T::N, Seq(&[(T::O, Slice(1, Some(2))), (T::N, Pop), (T::N, S("b"))])), (T::N, x::r3), (T::N, Pos(&Pop))]), 1, INF, T::N);
    r13 = S("b");
    r14 = Alt(&[Seq(&[(T::O, Alt(&[x::r4, Pop, x::_r6])), (T::N, Opt(&S("b"))), (T::N, Seq(&[(T::N, Opt(&S("a"))), (T::N, x::_r11), (T::N, Opt(&Pop)), (T::N, Opt(&Any)), (T::N, Opt(&Slice(0, Some(1)))), (T::N, Opt(&Any)), (T::N, Any)]))]), Alt(&[Rep(&S("b"), 2, 2, T::O), Rep(&S("b"), 1, 3, T::O)])]);
    _r15 "_" = Seq(&[(T::N, Push(&Drop)), (T::N, Alt(&[Slice(0, Some(2)), Pop])), (T::N, Seq(&[(T::O, x::r2), (T::N, Peek), (T::N, Peek)]))]);
    _r16 "_" = Seq(&[(T::N, Drop), (T::N, R('b', 'c')), (T::N, S("b")), (T::O, Opt(&S("b"))), (T::N, Opt(&x::r9)), (T::N, Opt(&S("a"))), (T::N, Opt(&x::_r15)), (T::O, Opt(&x::r3)), (T::O, Opt(&Pop)), (T::N, Slice(0, Some(2)))]);
    r17 = S("b");
    r18 = Opt(&Rep(&Seq(&[(T::N, Opt(&R('a', 'c'))), (T::N, Opt(&S("b"))), (T::N, Opt(&x::r2)), (T::N, Opt(&Slice(1, Some(2)))), (T::N, Pop), (T::N, R('b', 'c')), (T::N, S("a")), (T::O, R('a', 'd')), (T::N, Opt(&S("a"))), (T::N, Opt(&Slice(2, Some(0)))), (T::N, Opt(&S("b"))), (T::N, S("a")), (T::N, Opt(&x::_r11))]), 1, 1, T::N));
    r19 = Opt(&Opt(&Alt(&[Peek, S("b")])));
}
suite! { mod stack2 = r##"
~ = " "
^ = "_"
r0 = pest::any
r1 = pest::stack::peek[-1..] | pest::stack::pop_all
r2 = pest::stack::peek | "b"
_r3 = _{ pest::stack::peek[..] - (pest::stack::peek[0..1] ~ pest::stack::peek[0..] ~ pest::stack::push("b") - "b"?) - (pest::stack::push("b"))? - pest::stack::push((pest::any){2..}) }
_r4 = _{ pest::stack::push(pest::stack::pop | pest::stack::peek[1..2]) - !(pest::stack::pop - _r3 - pest::stack::peek) - !("aa" - pest::stack::drop - r2) }
r5 = (pest::stack::push("a") ~ (pest::stack::pop_all - pest::stack::peek_all))~{1..2}
r6 = pest::stack::push((pest::stack::peek ~ pest::stack::peek) - (pest::stack::peek[..2])?)
r7 = (pest::any){..2} - pest::stack::push(pest::stack::peek[-1..2]) - &(pest::stack::peek[-2..-1])
r8 = pest::stack::push(pest::any | pest::stack::peek)
r9 = pest::stack::push((pest::stack::pop - pest::stack::pop - pest::stack::pop_all) - pest::stack::push('a'..'c'))
r10 = pest::stack::push(r9 - "b" - pest::stack::peek)
r11 = ("b" | "a" | "b"){0..1} - (pest::stack::push("b") | (pest::stack::peek - "a") | pest::any | (pest::stack::pop)? | 'b'..'d' | pest::stack::push(pest::stack::pop) | 'b'..'c' | pest::stack::push("a") | &(pest::stack::pop_all) | pest::stack::push(pest::stack::pop) | "b" | pest::stack::peek | ('b'..'c' | pest::any) | pest::stack::push("a") | r9 | "b"{1} | _r3) ~ r8
_r12 = _{ pest::stack::push("a") | (pest::any)? | !(pest::stack::peek) | ('a'..'c' ~ "b" - pest::any) }
r13 = (!(pest::stack::peek) - ('a'..'a')? - r6?) - pest::stack::push(pest::stack::push(pest::stack::peek)) - (('a'..'d' - "b" - pest::stack::peek[..2]) | ("b" - pest::any - pest::stack::pop) | &("b"))
r14 = pest::stack::push(r9) - (&(pest::stack::peek) - (pest::stack::drop | _r12))
r15 = 'a'..'c' - &(pest::stack::peek[1..0]) ~ ((('b'..'b' - "b" - pest::stack::drop) | "bb" | pest::stack::pop | 'a'..'c' | (pest::stack::pop)? | pest::stack::drop | pest::stack::pop | pest::stack::pop) - ((r6 - pest::stack::peek[1..-1] - "b") | !(pest::stack::peek_all) | pest::stack::peek[-1..-1] | ('a'..'c' | _r4 | "a") | pest::stack::peek | pest::stack::pop | r9{1..3} | "b" | pest::stack::peek | pest::stack::pop | "a" | (pest::stack::drop ~ 'c'..'c' - "b" ~ "a") | pest::stack::peek | pest::stack::drop | !(pest::stack::pop) | r14 | r14)) - (r5 - pest::stack::peek ~ pest::stack::peek[0..0])*
r16 = (("b" - r0) - (r11 | pest::stack::peek_all | pest::stack::peek | _r12) - r5{..2})?
r17 = pest::stack::push(pest::stack::pop_all | pest::stack::peek | "b") ~ (pest::stack::push("b") | ("a" | r16)) - pest::stack::push("b"{1..3}) - !("a")
r18 = (pest::stack::push(pest::stack::pop) | ("a" - "b" - "ab" - _r4)) - ("a" ~ pest::stack::peek){0..1} - (("b" - "a" - pest::stack::peek[-1..] - pest::stack::peek[-2..-1]) | (pest::stack::peek)? | "b"+ | pest::stack::push(r1))
r19 = pest::stack::peek[-2..] - ((pest::any - r10) - (pest::any - pest::stack::peek_all)) - (pest::stack::push("bb") | ("b" | r7))
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = Any;
    r1 = Alt(&[Slice(-1, None), PopAll]);
    r2 = Alt(&[Peek, S("b")]);
    _r3 "_" = Seq(&[(T::N, Slice(0, None)), (T::N, Seq(&[(T::N, Slice(0, Some(1))), (T::O, Slice(0, None)), (T::O, Push(&S("b"))), (T::N, Opt(&S("b")))])), (T::N, Opt(&Push(&S("b")))), (T::N, Push(&Rep(&Any, 2, INF, T::N)))]);
    _r4 "_" = Seq(&[(T::N, Push(&Alt(&[Pop, Slice(1, Some(2))]))), (T::N, Neg(&Seq(&[(T::N, Pop), (T::N, x::_r3), (T::N, Peek)]))), (T::N, Neg(&Seq(&[(T::O, S("aa")), (T::N, Drop), (T::N, x::r2)])))]);
    r5 = Rep(&Seq(&[(T::O, Push(&S("a"))), (T::O, Seq(&[(T::N, PopAll), (T::N, PeekAll)]))]), 1, 2, T::O);
    r6 = Push(&Seq(&[(T::N, Seq(&[(T::N, Peek), (T::O, Peek)])), (T::N, Opt(&Slice(0, Some(2))))]));
    r7 = Seq(&[(T::O, Rep(&Any, 0, 2, T::N)), (T::N, Push(&Slice(-1, Some(2)))), (T::N, Pos(&Slice(-2, Some(-1))))]);
    r8 = Push(&Alt(&[Any, Peek]));
    r9 = Push(&Seq(&[(T::N, Seq(&[(T::N, Pop), (T::N, Pop), (T::N, PopAll)])), (T::N, Push(&R('a', 'c')))]));
    r10 = Push(&Seq(&[(T::N, x::r9), (T::N, S("b")), (T::N, Peek)]));
    r11 = Seq(&[(T::N, Rep(&Alt(&[S("b"), S("a"), S("b")]), 0, 1, T::N)), (T::N, Alt(&[Push(&S("b")), Seq(&[(T::N, Peek), (T::N, S("a"))]), Any, Opt(&Pop), R('b', 'd'), Push(&Pop), R('b', 'c'), Push(&S("a")), Pos(&PopAll), Push(&Pop), S("b"), Peek, Alt(&[R('b', 'c'), Any]), Push(&S("a")), x::r9, Rep(&S("b"), 1, 1, T::N), x::_r3])), (T::O, x::r8)]);
    _r12 "_" = Alt(&[Push(&S("a")), Opt(&Any), Neg(&Peek), Seq(&[(T::N, R('a', 'c')), (T::O, S("b")), (T::N, Any)])]);
    r13 = Seq(&[(T::N, Seq(&[(T::O, Neg(&Peek)), (T::N, Opt(&R('a', 'a'))), (T::N, Opt(&x::r6))])), (T::N, Push(&Push(&Peek))), (T::N, Alt(&[Seq(&[(T::O, R('a', 'd')), (T::N, S("b")), (T::N, Slice(0, Some(2)))]), Seq(&[(T::N, S("b")), (T::N, Any), (T::N, Pop)]), Pos(&S("b"))]))]);
    r14 = Seq(&[(T::N, Push(&x::r9)), (T::N, Seq(&[(T::N, Pos(&Peek)), (T::N, Alt(&[Drop, x::_r12]))]))]);
    r15 = Seq(&[(T::N, R('a', 'c')), (T::N, Pos(&Slice(1, Some(0)))), (T::O, Seq(&[(T::N, Alt(&[Seq(&[(T::N, R('b', 'b')), (T::N, S("b")), (T::N, Drop)]), S("bb"), Pop, R('a', 'c'), Opt(&Pop), Drop, Pop, Pop])), (T::N, Alt(&[Seq(&[(T::N, x::r6), (T::N, Slice(1, Some(-1))), (T::N, S("b"))]), Neg(&PeekAll), Slice(-1, Some(-1)), Alt(&[R('a', 'c'), x::_r4, S("a")]), Peek, Pop, Rep(&x::r9, 1, 3, T::N), S("b"), Peek, Pop, S("a"), Seq(&[(T::N, Drop), (T::O, R('c', 'c')), (T::N, S("b")), (T::O, S("a"))]), Peek, Drop, Neg(&Pop), x::r14, x::r14]))])), (T::N, Rep(&Seq(&[(T::N, x::r5), (T::N, Peek), (T::O, Slice(0, Some(0)))]), 0, INF, T::N))]);
    r16 = Opt(&Seq(&[(T::N, Seq(&[(T::N, S("b")), (T::N, x::r0)])), (T::N, Alt(&[x::r11, PeekAll, Peek, x::_r12])), (T::N, Rep(&x::r5, 0, 2, T::N))]));
    r17 = Seq(&[(T::N, Push(&Alt(&[PopAll, Peek, S("b")]))), (T::O, Alt(&[Push(&S("b")), Alt(&[S("a"), x::r16])])), (T::N, Push(&Rep(&S("b"), 1, 3, T::N))), (T::N, Neg(&S("a")))]);
    r18 = Seq(&[(T::O, Alt(&[Push(&Pop), Seq(&[(T::N, S("a")), (T::N, S("b")), (T::N, S("ab")), (T::N, x::_r4)])])), (T::N, Rep(&Seq(&[(T::O, S("a")), (T::O, Peek)]), 0, 1, T::N)), (T::N, Alt(&[Seq(&[(T::N, S("b")), (T::N, S("a")), (T::N, Slice(-1, None)), (T::N, Slice(-2, Some(-1)))]), Opt(&Peek), Rep(&S("b"), 1, INF, T::N), Push(&x::r1)]))]);
    r19 = Seq(&[(T::N, Slice(-2, None)), (T::N, Seq(&[(T::N, Seq(&[(T::O, Any), (T::N, x::r10)])), (T::N, Seq(&[(T::N, Any), (T::N, PeekAll)]))])), (T::N, Alt(&[Push(&S("bb")), Alt(&[S("b"), x::r7])]))]);
}
suite! { mod stack3 = r##"
~ = " "
^ = "_"
r0 = "b"
_r1 = _{ "b" | pest::stack::peek }
r2 = _r1
r3 = "b"
r4 = (pest::stack::push("ba") | ("a" ~ pest::stack::pop - "a") | ("b" - pest::stack::peek_all - "b") | !(pest::stack::peek))?
r5 = pest::stack::push((pest::stack::peek_all - r4 - r0)?)
r6 = "a"{1..} - pest::stack::push(pest::stack::pop_all)
_r7 = _{ r6 }
r8 = r4
r9 = (pest::stack::push(pest::stack::peek) | ("a" ~ pest::any) | !("a") | (pest::stack::peek[2..1] - "b" - "a")) - (("aa" - pest::any - r3) | ("ba" | _r7 | pest::stack::peek)) - pest::stack::peek
r10 = pest::stack::drop
r11 = pest::stack::push(pest::stack::peek - r0 - r0)
_r12 = _{ ("a" - (pest::stack::pop_all - pest::stack::pop - r4 - "ab") ~ (("a" | r10) | pest::stack::peek_all | pest::stack::peek | pest::stack::peek[2..] | (pest::stack::pop_all | "ba" | pest::any | "a") | ("a" | pest::stack::pop_all | 'c'..'d') | r6 | "a"? | r3 | pest::stack::peek[2..-1] | pest::stack::drop | pest::stack::peek_all)) - ((_r1 - pest::stack::peek - pest::stack::peek) ~ (pest::stack::peek[1..2] - r9) - pest::stack::push("a")) - ((pest::stack::peek_all - pest::stack::pop) - (pest::any)?) - pest::stack::push("a"{1..3}) }
_r13 = _{ pest::stack::push(pest::stack::peek - pest::any - "a") }
r14 = (pest::stack::push((pest::stack::peek[-2..-1])?))?
r15 = (pest::stack::push("a"))?
_r16 = _{ (r15? - "a" - ('c'..'d')? ~ pest::stack::pop - r14 - "b"? - r9? - (pest::stack::pop)? - ('a'..'a')? - ('a'..'a')? - pest::stack::peek[-1..2] ~ pest::stack::pop_all - (pest::stack::drop)? - r0 ~ _r1 - (pest::stack::pop)?) | ((_r7 - pest::stack::peek[0..0]) - (pest::any)?) }
r17 = ((pest::stack::pop_all)?)?
r18 = ("b"{1..} | "a"? | r6~+ | "b") | (pest::stack::push(pest::stack::peek) - "a"{1} ~ ("a" | "aa") - pest::stack::push(r11))
r19 = r8?
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S("b");
    _r1 "_" = Alt(&[S("b"), Peek]);
    r2 = x::_r1;
    r3 = S("b");
    r4 = Opt(&Alt(&[Push(&S("ba")), Seq(&[(T::O, S("a")), (T::O, Pop), (T::N, S("a"))]), Seq(&[(T::O, S("b")), (T::N, PeekAll), (T::N, S("b"))]), Neg(&Peek)]));
    r5 = Push(&Opt(&Seq(&[(T::N, PeekAll), (T::N, x::r4), (T::N, x::r0)])));
    r6 = Seq(&[(T::N, Rep(&S("a"), 1, INF, T::N)), (T::N, Push(&PopAll))]);
    _r7 "_" = x::r6;
    r8 = x::r4;
    r9 = Seq(&[(T::N, Alt(&[Push(&Peek), Seq(&[(T::N, S("a")), (T::O, Any)]), Neg(&S("a")), Seq(&[(T::N, Slice(2, Some(1))), (T::N, S("b")), (T::N, S("a"))])])), (T::N, Alt(&[Seq(&[(T::N, S("aa")), (T::N, Any), (T::N, x::r3)]), Alt(&[S("ba"), x::_r7, Peek])])), (T::N, Peek)]);
    r10 = Drop;
    r11 = Push(&Seq(&[(T::N, Peek), (T::N, x::r0), (T::N, x::r0)]));
    _r12 "_" = Seq(&[(T::N, Seq(&[(T::N, S("a")), (T::N, Seq(&[(T::N, PopAll), (T::N, Pop), (T::N, x::r4), (T::N, S("ab"))])), (T::O, Alt(&[Alt(&[S("a"), x::r10]), PeekAll, Peek, Slice(2, None), Alt(&[PopAll, S("ba"), Any, S("a")]), Alt(&[S("a"), PopAll, R('c', 'd')]), x::r6, Opt(&S("a")), x::r3, Slice(2, Some(-1)), Drop, PeekAll]))])), (T::N, Seq(&[(T::N, Seq(&[(T::O, x::_r1), (T::N, Peek), (T::N, Peek)])), (T::O, Seq(&[(T::N, Slice(1, Some(2))), (T::N, x::r9)])), (T::N, Push(&S("a")))])), (T::N, Seq(&[(T::O, Seq(&[(T::O, PeekAll), (T::N, Pop)])), (T::N, Opt(&Any))])), (T::N, Push(&Rep(&S("a"), 1, 3, T::N)))]);
    _r13 "_" = Push(&Seq(&[(T::O, Peek), (T::N, Any), (T::N, S("a"))]));
    r14 = Opt(&Push(&Opt(&Slice(-2, Some(-1)))));
    r15 = Opt(&Push(&S("a")));
    _r16 "_" = Alt(&[Seq(&[(T::O, Opt(&x::r15)), (T::N, S("a")), (T::N, Opt(&R('c', 'd'))), (T::O, Pop), (T::N, x::r14), (T::N, Opt(&S("b"))), (T::N, Opt(&x::r9)), (T::N, Opt(&Pop)), (T::N, Opt(&R('a', 'a'))), (T::N, Opt(&R('a', 'a'))), (T::N, Slice(-1, Some(2))), (T::O, PopAll), (T::N, Opt(&Drop)), (T::N, x::r0), (T::O, x::_r1), (T::N, Opt(&Pop))]), Seq(&[(T::N, Seq(&[(T::N, x::_r7), (T::N, Slice(0, Some(0)))])), (T::N, Opt(&Any))])]);
    r17 = Opt(&Opt(&PopAll));
    r18 = Alt(&[Alt(&[Rep(&S("b"), 1, INF, T::N), Opt(&S("a")), Rep(&x::r6, 1, INF, T::O), S("b")]), Seq(&[(T::O, Push(&Peek)), (T::N, Rep(&S("a"), 1, 1, T::N)), (T::O, Alt(&[S("a"), S("aa")])), (T::N, Push(&x::r11))])]);
    r19 = Opt(&x::r8);
}
suite! { mod stack4 = r##"
~ = " "
^ = "_"
r0 = pest::any
_r1 = _{ pest::stack::push(pest::stack::pop) }
_r2 = _{ pest::stack::peek - _r1 ~ pest::stack::peek - "b" }
r3 = ("a" ~ "a") | (_r2 ~ "b") | _r2 | r0? | (pest::any){1..3} | _r1 | "b" | !("ba") | (_r2 | _r2 | pest::stack::pop | pest::stack::peek[..1]) | pest::stack::pop | "ab" | pest::stack::peek | ("ba" | pest::stack::peek_all) | &(pest::stack::peek[2..]) | (pest::stack::pop | pest::stack::pop) | (pest::stack::pop)?
_r4 = _{ pest::stack::push(r3 - r3 ~ "b" ~ pest::stack::peek) | (!(pest::stack::drop) | ("a" - r3 - _r1) | (pest::stack::peek_all)? | "b"?) | pest::stack::push("ba" - "bb") | pest::stack::push(_r2 | pest::stack::peek) }
r5 = pest::stack::push('b'..'b') - "a"?
r6 = "bb"{1..2} | (r5 | pest::stack::peek_all | _r4 | pest::stack::pop_all) | (pest::stack::pop_all | pest::stack::drop) | &(pest::stack::pop) | pest::stack::peek[2..2] | pest::stack::push('b'..'c') | (pest::stack::peek | pest::stack::drop) | pest::stack::peek[..2] | "b" | (pest::stack::peek[-1..-1] - _r4 - "a" - r0) | (pest::stack::peek - pest::stack::peek - pest::stack::pop - pest::stack::pop_all) | pest::stack::push(pest::stack::peek_all) | _r4 | "bb"{2} | pest::stack::push(r0) | 'c'..'d' | r3
r7 = "a"
r8 = !(pest::stack::push("b"?))
r9 = pest::stack::push(_r2?) | (pest::stack::pop_all - pest::stack::pop - pest::any)? | ((pest::stack::peek | pest::stack::pop | 'c'..'d') | ("b" - pest::stack::pop) | ("a" | "b" | pest::stack::drop) | pest::stack::push("a"))
r10 = (pest::stack::peek[1..1] - "b" ~ pest::stack::pop)+
r11 = (r5? | (pest::stack::peek | pest::stack::peek)) | (!(r6) ~ (pest::any){1..2}) | pest::stack::push("b"?) | ("a" - "a")?
r12 = (pest::stack::drop - "b"?)?
r13 = (pest::stack::push("a") - ('b'..'d'){0..1}) | (pest::stack::push(pest::stack::peek))?
r14 = &(pest::stack::pop | pest::stack::pop | pest::any)
r15 = (pest::stack::push(_r4) | !(pest::stack::peek[0..]) | (r7 | pest::stack::peek | "b" | pest::stack::peek[..1]) | r10) ~ ((pest::stack::peek)? | r5 | (pest::stack::pop | "b" | pest::stack::pop_all) | (pest::stack::pop - pest::stack::peek)) ~ (&(pest::stack::pop_all) - ("a" - pest::stack::pop_all - pest::stack::peek[1..0] - "aa") ~ ('b'..'b'){2})
r16 = (&("b") - "b" - pest::stack::push("a")) - (("a" | pest::any | pest::stack::pop_all) | pest::stack::push("b") | pest::stack::push("ba"))
r17 = ((pest::any | pest::stack::pop) | ('c'..'d')? | ("a" | r12))?
_r18 = _{ pest::stack::push(("b" - 'a'..'c'){3}) }
r19 = (pest::stack::peek - r11 - pest::stack::pop - "b")*
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = Any;
    _r1 "_" = Push(&Pop);
    _r2 "_" = Seq(&[(T::O, Peek), (T::N, x::_r1), (T::O, Peek), (T::N, S("b"))]);
    r3 = Alt(&[Seq(&[(T::O, S("a")), (T::O, S("a"))]), Seq(&[(T::N, x::_r2), (T::O, S("b"))]), x::_r2, Opt(&x::r0), Rep(&Any, 1, 3, T::N), x::_r1, S("b"), Neg(&S("ba")), Alt(&[x::_r2, x::_r2, Pop, Slice(0, Some(1))]), Pop, S("ab"), Peek, Alt(&[S("ba"), PeekAll]), Pos(&Slice(2, None)), Alt(&[Pop, Pop]), Opt(&Pop)]);
    _r4 "_" = Alt(&[Push(&Seq(&[(T::N, x::r3), (T::N, x::r3), (T::O, S("b")), (T::O, Peek)])), Alt(&[Neg(&Drop), Seq(&[(T::N, S("a")), (T::N, x::r3), (T::N, x::_r1)]), Opt(&PeekAll), Opt(&S("b"))]), Push(&Seq(&[(T::N, S("ba")), (T::N, S("bb"))])), Push(&Alt(&[x::_r2, Peek]))]);
    r5 = Seq(&[(T::N, Push(&R('b', 'b'))), (T::N, Opt(&S("a")))]);
    r6 = Alt(&[Rep(&S("bb"), 1, 2, T::N), Alt(&[x::r5, PeekAll, x::_r4, PopAll]), Alt(&[PopAll, Drop]), Pos(&Pop), Slice(2, Some(2)), Push(&R('b', 'c')), Alt(&[Peek, Drop]), Slice(0, Some(2)), S("b"), Seq(&[(T::N, Slice(-1, Some(-1))), (T::N, x::_r4), (T::N, S("a")), (T::N, x::r0)]), Seq(&[(T::N, Peek), (T::N, Peek), (T::N, Pop), (T::N, PopAll)]), Push(&PeekAll), x::_r4, Rep(&S("bb"), 2, 2, T::N), Push(&x::r0), R('c', 'd'), x::r3]);
    r7 = S("a");
    r8 = Neg(&Push(&Opt(&S("b"))));
    r9 = Alt(&[Push(&Opt(&x::_r2)), Opt(&Seq(&[(T::N, PopAll), (T::N, Pop), (T::N, Any)])), Alt(&[Alt(&[Peek, Pop, R('c', 'd')]), Seq(&[(T::N, S("b")), (T::N, Pop)]), Alt(&[S("a"), S("b"), Drop]), Push(&S("a"))])]);
    r10 = Rep(&Seq(&[(T::N, Slice(1, Some(1))), (T::N, S("b")), (T::O, Pop)]), 1, INF, T::N);
    r11 = Alt(&[Alt(&[Opt(&x::r5), Alt(&[Peek, Peek])]), Seq(&[(T::N, Neg(&x::r6)), (T::O, Rep(&Any, 1, 2, T::N))]), Push(&Opt(&S("b"))), Opt(&Seq(&[(T::N, S("a")), (T::N, S("a"))]))]);
    r12 = Opt(&Seq(&[(T::O, Drop), (T::N, Opt(&S("b")))]));
    r13 = Alt(&[Seq(&[(T::N, Push(&S("a"))), (T::N, Rep(&R('b', 'd'), 0, 1, T::N))]), Opt(&Push(&Peek))]);
    r14 = Pos(&Alt(&[Pop, Pop, Any]));
    r15 = Seq(&[(T::N, Alt(&[Push(&x::_r4), Neg(&Slice(0, None)), Alt(&[x::r7, Peek, S("b"), Slice(0, Some(1))]), x::r10])), (T::O, Alt(&[Opt(&Peek), x::r5, Alt(&[Pop, S("b"), PopAll]), Seq(&[(T::N, Pop), (T::N, Peek)])])), (T::O, Seq(&[(T::N, Pos(&PopAll)), (T::N, Seq(&[(T::O, S("a")), (T::N, PopAll), (T::N, Slice(1, Some(0))), (T::N, S("aa"))])), (T::O, Rep(&R('b', 'b'), 2, 2, T::N))]))]);
    r16 = Seq(&[(T::N, Seq(&[(T::N, Pos(&S("b"))), (T::N, S("b")), (T::N, Push(&S("a")))])), (T::N, Alt(&[Alt(&[S("a"), Any, PopAll]), Push(&S("b")), Push(&S("ba"))]))]);
    r17 = Opt(&Alt(&[Alt(&[Any, Pop]), Opt(&R('c', 'd')), Alt(&[S("a"), x::r12])]));
    _r18 "_" = Push(&Rep(&Seq(&[(T::O, S("b")), (T::N, R('a', 'c'))]), 3, 3, T::N));
    r19 = Rep(&Seq(&[(T::N, Peek), (T::N, x::r11), (T::N, Pop), (T::N, S("b"))]), 0, INF, T::N);
}
fn any_stack() -> usize { choose(100) }
#[allow(unused)] fn run_stack(k: usize, s: &'static str) { match k / 20 { 0 => { stack0::run(k % 20, s); } 1 => { stack1::run(k % 20, s); } 2 => { stack2::run(k % 20, s); } 3 => { stack3::run(k % 20, s); } 4 => { stack4::run(k % 20, s); } _ => {} } }
#[allow(unused)] fn visit_stack<V: Visit>(k: usize, v: &mut V) { match k / 20 { 0 => stack0::visit(k % 20, v), 1 => stack1::visit(k % 20, v), 2 => stack2::visit(k % 20, v), 3 => stack3::visit(k % 20, v), 4 => stack4::visit(k % 20, v), _ => {} } }
