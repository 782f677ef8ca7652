// Written by bin/mkgen.py.
suite! { mod pred0 = r##"
~ = " "
^ = "_"
r0 = "c"
r1 = ".c" ~ "b" ^ "ba"
r2 = !("b.")
r3 = "a"^{1..2} - pest::stack::push(r1)
r4 = !(r2 | r3 | r1 | "c")
r5 = &(!("b")) | (&(".") ~ &(pest::stack::drop) - !("c.") - (r3 ^ pest::stack::pop - "aa")) | (r1 - 'b'..'b' ~ "a" - ('c'..'d')? - "b" ^ r0? - "bb" - r0?)
r6 = !(("b" - 'b'..'c') - &(r1) ~ (r2 | "a" | "a.") - (pest::stack::pop)?)
r7 = !(r0 ~ "a")
r8 = &("c"?) ~ (r6 | pest::any | "ca" | "a.")? ^ ("ab" - 'b'..'c' ~ "b"){0..1}
r9 = &((!("c"))?)
r10 = "b"
r11 = (!('c'..'c') - (".c" - r4))^{2}
r12 = &(!("c" - r9 ^ "."))
r13 = ("c" ~ "." ~ r9) - (r6 ~ pest::stack::peek) - !('c'..'c') - r10
r14 = !(r5) | (("a"? - ('c'..'c')? ~ (pest::stack::peek_all)? - (pest::any)? - r5? ^ pest::stack::peek ~ (pest::stack::peek_all)? ^ "a" ^ pest::stack::pop - "."? - r13? ~ "b"? ^ r10 ^ r5 - ('a'..'d')? ^ (pest::stack::peek)? - ('a'..'c')? - r2? - r0? - (pest::any)?) | (pest::any ~ "." - 'a'..'b' - r13) | (r13 | r4)) | &(!(r9)) | (r4? - (r6 - ".b"))
r15 = (('b'..'c' - "b") - &("b") - "cc"?) - !(&(r12)) ~ ("a" ~ (pest::stack::peek_all | r11 | r8 | "b")) - !(r4 | "ba" | r5 | "a")
r16 = !("a" | r13) ~ ("bb" - (r11 - r0 - r8) - pest::stack::push("a")) ^ (!(pest::stack::peek_all) | "."? | "ba"~{..2} | !("ac"))
r17 = (&(pest::any) | r1?) | "."{0..1}
r18 = (pest::stack::pop_all - &("c") - (r8 - r17 - pest::any - r9)){2}
r19 = &("bb")
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S("c");
    r1 = Seq(&[(T::M, S(".c")), (T::O, S("b")), (T::M, S("ba"))]);
    r2 = Neg(&S("b."));
    r3 = Seq(&[(T::N, Rep(&S("a"), 1, 2, T::M)), (T::N, Push(&x::r1))]);
    r4 = Neg(&Alt(&[x::r2, x::r3, x::r1, S("c")]));
    r5 = Alt(&[Pos(&Neg(&S("b"))), Seq(&[(T::O, Pos(&S("."))), (T::O, Pos(&Drop)), (T::N, Neg(&S("c."))), (T::N, Seq(&[(T::N, x::r3), (T::M, Pop), (T::N, S("aa"))]))]), Seq(&[(T::N, x::r1), (T::N, R('b', 'b')), (T::O, S("a")), (T::N, Opt(&R('c', 'd'))), (T::N, S("b")), (T::M, Opt(&x::r0)), (T::N, S("bb")), (T::N, Opt(&x::r0))])]);
    r6 = Neg(&Seq(&[(T::O, Seq(&[(T::N, S("b")), (T::N, R('b', 'c'))])), (T::N, Pos(&x::r1)), (T::O, Alt(&[x::r2, S("a"), S("a.")])), (T::N, Opt(&Pop))]));
    r7 = Neg(&Seq(&[(T::N, x::r0), (T::O, S("a"))]));
    r8 = Seq(&[(T::M, Pos(&Opt(&S("c")))), (T::O, Opt(&Alt(&[x::r6, Any, S("ca"), S("a.")]))), (T::M, Rep(&Seq(&[(T::O, S("ab")), (T::N, R('b', 'c')), (T::O, S("b"))]), 0, 1, T::N))]);
    r9 = Pos(&Opt(&Neg(&S("c"))));
    r10 = S("b");
    r11 = Rep(&Seq(&[(T::O, Neg(&R('c', 'c'))), (T::N, Seq(&[(T::O, S(".c")), (T::N, x::r4)]))]), 2, 2, T::M);
    r12 = Pos(&Neg(&Seq(&[(T::N, S("c")), (T::N, x::r9), (T::M, S("."))])));
    r13 = Seq(&[(T::O, Seq(&[(T::O, S("c")), (T::O, S(".")), (T::O, x::r9)])), (T::N, Seq(&[(T::N, x::r6), (T::O, Peek)])), (T::N, Neg(&R('c', 'c'))), (T::N, x::r10)]);
    r14 = Alt(&[Neg(&x::r5), Alt(&[Seq(&[(T::N, Opt(&S("a"))), (T::N, Opt(&R('c', 'c'))), (T::O, Opt(&PeekAll)), (T::N, Opt(&Any)), (T::N, Opt(&x::r5)), (T::M, Peek), (T::O, Opt(&PeekAll)), (T::M, S("a")), (T::M, Pop), (T::N, Opt(&S("."))), (T::N, Opt(&x::r13)), (T::O, Opt(&S("b"))), (T::M, x::r10), (T::M, x::r5), (T::N, Opt(&R('a', 'd'))), (T::M, Opt(&Peek)), (T::N, Opt(&R('a', 'c'))), (T::N, Opt(&x::r2)), (T::N, Opt(&x::r0)), (T::N, Opt(&Any))]), Seq(&[(T::N, Any), (T::O, S(".")), (T::N, R('a', 'b')), (T::N, x::r13)]), Alt(&[x::r13, x::r4])]), Pos(&Neg(&x::r9)), Seq(&[(T::M, Opt(&x::r4)), (T::N, Seq(&[(T::N, x::r6), (T::N, S(".b"))]))])]);
    r15 = Seq(&[(T::N, Seq(&[(T::O, Seq(&[(T::M, R('b', 'c')), (T::N, S("b"))])), (T::N, Pos(&S("b"))), (T::N, Opt(&S("cc")))])), (T::N, Neg(&Pos(&x::r12))), (T::O, Seq(&[(T::N, S("a")), (T::O, Alt(&[PeekAll, x::r11, x::r8, S("b")]))])), (T::N, Neg(&Alt(&[x::r4, S("ba"), x::r5, S("a")])))]);
    r16 = Seq(&[(T::N, Neg(&Alt(&[S("a"), x::r13]))), (T::O, Seq(&[(T::M, S("bb")), (T::N, Seq(&[(T::O, x::r11), (T::N, x::r0), (T::N, x::r8)])), (T::N, Push(&S("a")))])), (T::M, Alt(&[Neg(&PeekAll), Opt(&S(".")), Rep(&S("ba"), 0, 2, T::O), Neg(&S("ac"))]))]);
    r17 = Alt(&[Alt(&[Pos(&Any), Opt(&x::r1)]), Rep(&S("."), 0, 1, T::N)]);
    r18 = Rep(&Seq(&[(T::N, PopAll), (T::N, Pos(&S("c"))), (T::N, Seq(&[(T::N, x::r8), (T::N, x::r17), (T::N, Any), (T::N, x::r9)]))]), 2, 2, T::N);
    r19 = Pos(&S("bb"));
}
suite! { mod pred1 = r##"
~ = " "
^ = "_"
r0 = "."
r1 = 'b'..'b' - pest::stack::pop ^ "a"
r2 = pest::stack::drop - "a" - pest::any
r3 = !(pest::stack::peek | pest::stack::pop)
r4 = &(&("c"))
_r5 = _{ (("."{2}){..})? }
r6 = r2
r7 = r1 ~ !("."?) - "a" ^ pest::stack::push(!(pest::any))
r8 = !(pest::stack::push(pest::stack::peek[..-1]) | !(pest::stack::peek[0..]) | (('a'..'a')? - "b" ^ (pest::stack::drop)? ^ "."? - "."? ^ r3))
r9 = (r3 - "a.") | (pest::stack::drop - pest::stack::pop) | "a"* | pest::stack::push(pest::stack::peek[..2])
r10 = &("c"? | r7^{1..} | ".")
_r11 = _{ !(&(!("."))) }
r12 = &("c."? ^ r8? - ("b" | pest::any | 'a'..'c'))
r13 = (pest::stack::drop - "b" - r8) ~ &(r2)
r14 = &(("a" ^ r4) ^ &(r7) - ("a" ~ "b" ^ pest::stack::peek_all) - (".b" | r9 | pest::any | "b"))
r15 = &(("a" - "a" ^ r13 - ".")?)
r16 = !(&('a'..'c')) | &("b" ^ ".." - "c")
r17 = &('b'..'c' ~ "b")
r18 = &(!(r9)) - ("." ~ r14 ~ "b")~{1..2} ~ !(r3)
r19 = (r12? ~ pest::stack::push('a'..'a')) ~ !("b"?) - ("a" - 'a'..'c' ^ r12)? ^ !(!(pest::stack::peek))
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S(".");
    r1 = Seq(&[(T::N, R('b', 'b')), (T::N, Pop), (T::M, S("a"))]);
    r2 = Seq(&[(T::M, Drop), (T::N, S("a")), (T::N, Any)]);
    r3 = Neg(&Alt(&[Peek, Pop]));
    r4 = Pos(&Pos(&S("c")));
    _r5 "_" = Opt(&Rep(&Rep(&S("."), 2, 2, T::N), 0, INF, T::N));
    r6 = x::r2;
    r7 = Seq(&[(T::O, x::r1), (T::O, Neg(&Opt(&S(".")))), (T::N, S("a")), (T::M, Push(&Neg(&Any)))]);
    r8 = Neg(&Alt(&[Push(&Slice(0, Some(-1))), Neg(&Slice(0, None)), Seq(&[(T::O, Opt(&R('a', 'a'))), (T::N, S("b")), (T::M, Opt(&Drop)), (T::M, Opt(&S("."))), (T::N, Opt(&S("."))), (T::M, x::r3)])]));
    r9 = Alt(&[Seq(&[(T::N, x::r3), (T::N, S("a."))]), Seq(&[(T::N, Drop), (T::N, Pop)]), Rep(&S("a"), 0, INF, T::N), Push(&Slice(0, Some(2)))]);
    r10 = Pos(&Alt(&[Opt(&S("c")), Rep(&x::r7, 1, INF, T::M), S(".")]));
    _r11 "_" = Neg(&Pos(&Neg(&S("."))));
    r12 = Pos(&Seq(&[(T::N, Opt(&S("c."))), (T::M, Opt(&x::r8)), (T::N, Alt(&[S("b"), Any, R('a', 'c')]))]));
    r13 = Seq(&[(T::N, Seq(&[(T::N, Drop), (T::N, S("b")), (T::N, x::r8)])), (T::O, Pos(&x::r2))]);
    r14 = Pos(&Seq(&[(T::N, Seq(&[(T::N, S("a")), (T::M, x::r4)])), (T::M, Pos(&x::r7)), (T::N, Seq(&[(T::N, S("a")), (T::O, S("b")), (T::M, PeekAll)])), (T::N, Alt(&[S(".b"), x::r9, Any, S("b")]))]));
    r15 = Pos(&Opt(&Seq(&[(T::N, S("a")), (T::N, S("a")), (T::M, x::r13), (T::N, S("."))])));
    r16 = Alt(&[Neg(&Pos(&R('a', 'c'))), Pos(&Seq(&[(T::N, S("b")), (T::M, S("..")), (T::N, S("c"))]))]);
    r17 = Pos(&Seq(&[(T::N, R('b', 'c')), (T::O, S("b"))]));
    r18 = Seq(&[(T::N, Pos(&Neg(&x::r9))), (T::N, Rep(&Seq(&[(T::O, S(".")), (T::O, x::r14), (T::O, S("b"))]), 1, 2, T::O)), (T::O, Neg(&x::r3))]);
    r19 = Seq(&[(T::O, Seq(&[(T::M, Opt(&x::r12)), (T::O, Push(&R('a', 'a')))])), (T::O, Neg(&Opt(&S("b")))), (T::N, Opt(&Seq(&[(T::N, S("a")), (T::N, R('a', 'c')), (T::M, x::r12)]))), (T::M, Neg(&Neg(&Peek)))]);
}
suite! { mod pred2 = r##"
~ = " "
^ = "_"
r0 = pest::stack::peek
r1 = &("..")
_r2 = _{ &(r0) }
r3 = &((&(_r2))?)
r4 = !(&('a'..'c'))
_r5 = _{ &("c") | ("." ^ r1){0..1} }
r6 = !(_r2) ~ (_r5? - r3 - r3? - "."? - r1 - "a"? - ('c'..'c')?) - (pest::stack::peek - "c") - _r5?
r7 = &("b"?)
_r8 = _{ "." }
r9 = _r5
r10 = pest::stack::push((pest::stack::peek[2..-1] - "c" - "c") ^ ("." - 'a'..'b') ~ ("a" ^ r7 - "b" ~ 'c'..'c'))
r11 = &(('b'..'b'){0..1} | r4 | &(r6))
r12 = (r4 - 'b'..'d' - r11){1..2}
_r13 = _{ &((_r2 ^ _r8) - !("c") ~ "b"{0..1} - (pest::stack::pop | "a")) }
_r14 = _{ &(&("b")) - &("c") }
r15 = &((&(r0))?)
r16 = &(!("c") | "b"?)
_r17 = _{ pest::stack::push('b'..'c' ^ r15) ^ !(!(r1)) }
r18 = !(!(r12))
r19 = (("c" | "cb") | "b")?
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = Peek;
    r1 = Pos(&S(".."));
    _r2 "_" = Pos(&x::r0);
    r3 = Pos(&Opt(&Pos(&x::_r2)));
    r4 = Neg(&Pos(&R('a', 'c')));
    _r5 "_" = Alt(&[Pos(&S("c")), Rep(&Seq(&[(T::O, S(".")), (T::M, x::r1)]), 0, 1, T::N)]);
    r6 = Seq(&[(T::O, Neg(&x::_r2)), (T::O, Seq(&[(T::N, Opt(&x::_r5)), (T::N, x::r3), (T::N, Opt(&x::r3)), (T::N, Opt(&S("."))), (T::N, x::r1), (T::N, Opt(&S("a"))), (T::N, Opt(&R('c', 'c')))])), (T::N, Seq(&[(T::N, Peek), (T::N, S("c"))])), (T::N, Opt(&x::_r5))]);
    r7 = Pos(&Opt(&S("b")));
    _r8 "_" = S(".");
    r9 = x::_r5;
    r10 = Push(&Seq(&[(T::O, Seq(&[(T::M, Slice(2, Some(-1))), (T::N, S("c")), (T::N, S("c"))])), (T::M, Seq(&[(T::N, S(".")), (T::N, R('a', 'b'))])), (T::O, Seq(&[(T::M, S("a")), (T::M, x::r7), (T::N, S("b")), (T::O, R('c', 'c'))]))]));
    r11 = Pos(&Alt(&[Rep(&R('b', 'b'), 0, 1, T::N), x::r4, Pos(&x::r6)]));
    r12 = Rep(&Seq(&[(T::N, x::r4), (T::N, R('b', 'd')), (T::N, x::r11)]), 1, 2, T::N);
    _r13 "_" = Pos(&Seq(&[(T::N, Seq(&[(T::N, x::_r2), (T::M, x::_r8)])), (T::N, Neg(&S("c"))), (T::O, Rep(&S("b"), 0, 1, T::N)), (T::N, Alt(&[Pop, S("a")]))]));
    _r14 "_" = Seq(&[(T::N, Pos(&Pos(&S("b")))), (T::N, Pos(&S("c")))]);
    r15 = Pos(&Opt(&Pos(&x::r0)));
    r16 = Pos(&Alt(&[Neg(&S("c")), Opt(&S("b"))]));
    _r17 "_" = Seq(&[(T::N, Push(&Seq(&[(T::M, R('b', 'c')), (T::M, x::r15)]))), (T::M, Neg(&Neg(&x::r1)))]);
    r18 = Neg(&Neg(&x::r12));
    r19 = Opt(&Alt(&[Alt(&[S("c"), S("cb")]), S("b")]));
}
suite! { mod pred3 = r##"
~ = " "
^ = "_"
r0 = "c"
r1 = "." - pest::stack::peek ~ r0
_r2 = _{ !("b") }
_r3 = _{ ((".a" | r1 | "b" | "."){2}){2..} }
r4 = (&("a") - ("." | "b" | "." | "a"))?
r5 = _r2
r6 = &("c")
_r7 = _{ ((pest::stack::drop - "ba" - ".") | ".a"? | &(r1)) ^ &(&(pest::stack::peek[1..1])) }
r8 = _r3+ | "b"+
r9 = !(r8{2})
r10 = ("a"? - "c" - r9? ^ r8? ^ "a" - "a"? ~ r9?) | ((pest::any ~ "b.") | pest::stack::push(_r7)) | &(pest::stack::peek - 'c'..'d' - r5)
r11 = &("." ~ "b" ~ "a")
r12 = !("b")
r13 = &('a'..'c')
_r14 = _{ 'b'..'c' ~ _r3? - _r2? - r6 - _r3 - _r2? - ".a" - "a"? - ".."? ~ "c"? - r12? - _r3 - "."? - 'a'..'d' - "."? - "."? - "."? ~ "."? ~ 'a'..'c' - r6 }
r15 = (!('a'..'c'))?
_r16 = _{ pest::stack::push("." | "a") | ("c" ~ "c"){1..} }
r17 = !((r10 | "a") - (pest::stack::drop - "c" ^ r12))
_r18 = _{ r6 }
_r19 = _{ ("c" - "c" ~ r11) | ".c"^{2} }
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S("c");
    r1 = Seq(&[(T::O, S(".")), (T::N, Peek), (T::O, x::r0)]);
    _r2 "_" = Neg(&S("b"));
    _r3 "_" = Rep(&Rep(&Alt(&[S(".a"), x::r1, S("b"), S(".")]), 2, 2, T::N), 2, INF, T::N);
    r4 = Opt(&Seq(&[(T::O, Pos(&S("a"))), (T::N, Alt(&[S("."), S("b"), S("."), S("a")]))]));
    r5 = x::_r2;
    r6 = Pos(&S("c"));
    _r7 "_" = Seq(&[(T::N, Alt(&[Seq(&[(T::O, Drop), (T::N, S("ba")), (T::N, S("."))]), Opt(&S(".a")), Pos(&x::r1)])), (T::M, Pos(&Pos(&Slice(1, Some(1)))))]);
    r8 = Alt(&[Rep(&x::_r3, 1, INF, T::N), Rep(&S("b"), 1, INF, T::N)]);
    r9 = Neg(&Rep(&x::r8, 2, 2, T::N));
    r10 = Alt(&[Seq(&[(T::N, Opt(&S("a"))), (T::N, S("c")), (T::N, Opt(&x::r9)), (T::M, Opt(&x::r8)), (T::M, S("a")), (T::N, Opt(&S("a"))), (T::O, Opt(&x::r9))]), Alt(&[Seq(&[(T::M, Any), (T::O, S("b."))]), Push(&x::_r7)]), Pos(&Seq(&[(T::O, Peek), (T::N, R('c', 'd')), (T::N, x::r5)]))]);
    r11 = Pos(&Seq(&[(T::M, S(".")), (T::O, S("b")), (T::O, S("a"))]));
    r12 = Neg(&S("b"));
    r13 = Pos(&R('a', 'c'));
    _r14 "_" = Seq(&[(T::N, R('b', 'c')), (T::O, Opt(&x::_r3)), (T::N, Opt(&x::_r2)), (T::N, x::r6), (T::N, x::_r3), (T::N, Opt(&x::_r2)), (T::N, S(".a")), (T::N, Opt(&S("a"))), (T::N, Opt(&S(".."))), (T::O, Opt(&S("c"))), (T::N, Opt(&x::r12)), (T::N, x::_r3), (T::N, Opt(&S("."))), (T::N, R('a', 'd')), (T::N, Opt(&S("."))), (T::N, Opt(&S("."))), (T::N, Opt(&S("."))), (T::O, Opt(&S("."))), (T::O, R('a', 'c')), (T::N, x::r6)]);
    r15 = Opt(&Neg(&R('a', 'c')));
    _r16 "_" = Alt(&[Push(&Alt(&[S("."), S("a")])), Rep(&Seq(&[(T::M, S("c")), (T::O, S("c"))]), 1, INF, T::N)]);
    r17 = Neg(&Seq(&[(T::N, Alt(&[x::r10, S("a")])), (T::N, Seq(&[(T::O, Drop), (T::N, S("c")), (T::M, x::r12)]))]));
    _r18 "_" = x::r6;
    _r19 "_" = Alt(&[Seq(&[(T::N, S("c")), (T::N, S("c")), (T::O, x::r11)]), Rep(&S(".c"), 2, 2, T::M)]);
}
suite! { mod pred4 = r##"
~ = " "
^ = "_"
r0 = "."
r1 = r0{2..}
_r2 = _{ r1 }
r3 = ("c" - "b") - ".b"?
r4 = (_r2 ~ pest::stack::pop)?
_r5 = _{ ("c"?)? }
r6 = "ac"? ^ !(pest::stack::peek)
r7 = (&("a"))? | &("." - "b")
r8 = pest::stack::push(&("." | "."))
_r9 = _{ r0{1..} }
r10 = (&(".") - "a"{0..1} - ('b'..'b'){1..} - ('a'..'b')?){1..3}
r11 = !(pest::stack::push(r10))
r12 = &(r7 | r6)
r13 = (!(r10) | !('a'..'d')) | (&("c") - pest::stack::push(pest::any)) | pest::stack::push("c"{1..2}) | (!("aa") ~ (r6 | pest::any))
r14 = !("b"{3}) | pest::stack::push(&("b")) | !("a" - "ac") | r6
r15 = (&("c"))? | ((pest::any - "b" - r6 - pest::stack::peek[1..0]) | "b"? | &("a"))
r16 = pest::stack::push(r15) | pest::stack::push("a")
_r17 = _{ !(&(&(r13))) }
r18 = !(pest::stack::push("cb"))
r19 = &(&(&(pest::stack::peek)))
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S(".");
    r1 = Rep(&x::r0, 2, INF, T::N);
    _r2 "_" = x::r1;
    r3 = Seq(&[(T::N, Seq(&[(T::N, S("c")), (T::N, S("b"))])), (T::N, Opt(&S(".b")))]);
    r4 = Opt(&Seq(&[(T::N, x::_r2), (T::O, Pop)]));
    _r5 "_" = Opt(&Opt(&S("c")));
    r6 = Seq(&[(T::M, Opt(&S("ac"))), (T::M, Neg(&Peek))]);
    r7 = Alt(&[Opt(&Pos(&S("a"))), Pos(&Seq(&[(T::M, S(".")), (T::N, S("b"))]))]);
    r8 = Push(&Pos(&Alt(&[S("."), S(".")])));
    _r9 "_" = Rep(&x::r0, 1, INF, T::N);
    r10 = Rep(&Seq(&[(T::M, Pos(&S("."))), (T::N, Rep(&S("a"), 0, 1, T::N)), (T::N, Rep(&R('b', 'b'), 1, INF, T::N)), (T::N, Opt(&R('a', 'b')))]), 1, 3, T::N);
    r11 = Neg(&Push(&x::r10));
    r12 = Pos(&Alt(&[x::r7, x::r6]));
    r13 = Alt(&[Alt(&[Neg(&x::r10), Neg(&R('a', 'd'))]), Seq(&[(T::N, Pos(&S("c"))), (T::N, Push(&Any))]), Push(&Rep(&S("c"), 1, 2, T::N)), Seq(&[(T::N, Neg(&S("aa"))), (T::O, Alt(&[x::r6, Any]))])]);
    r14 = Alt(&[Neg(&Rep(&S("b"), 3, 3, T::N)), Push(&Pos(&S("b"))), Neg(&Seq(&[(T::N, S("a")), (T::N, S("ac"))])), x::r6]);
    r15 = Alt(&[Opt(&Pos(&S("c"))), Alt(&[Seq(&[(T::O, Any), (T::N, S("b")), (T::N, x::r6), (T::N, Slice(1, Some(0)))]), Opt(&S("b")), Pos(&S("a"))])]);
    r16 = Alt(&[Push(&x::r15), Push(&S("a"))]);
    _r17 "_" = Neg(&Pos(&Pos(&x::r13)));
    r18 = Neg(&Push(&S("cb")));
    r19 = Pos(&Pos(&Pos(&Peek)));
}
fn any_pred() -> usize { choose(100) }
#[allow(unused)] fn run_pred(k: usize, s: &'static str) { match k / 20 { 0 => { pred0::run(k % 20, s); } 1 => { pred1::run(k % 20, s); } 2 => { pred2::run(k % 20, s); } 3 => { pred3::run(k % 20, s); } 4 => { pred4::run(k % 20, s); } _ => {} } }
#[allow(unused)] fn visit_pred<V: Visit>(k: usize, v: &mut V) { match k / 20 { 0 => pred0::visit(k % 20, v), 1 => pred1::visit(k % 20, v), 2 => pred2::visit(k % 20, v), 3 => pred3::visit(k % 20, v), 4 => pred4::visit(k % 20, v), _ => {} } }
