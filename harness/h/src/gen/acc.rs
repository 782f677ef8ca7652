// Written by bin/mkgen.py.
suite! { mod acc0 = r##"
~ = " "
^ = "_"
r0 = "b"
r1 = r0 - r0 - r0
r2 = "aa" - r0 ~ r0
r3 = ((("c" - r0 - r1 ~ ".") ~ ".") - (r2 | "a")? - ((r0 - r0 - r0) - (r2 - r2 ~ r1))){2}
r4 = &(r3 - 'b'..'b' - r1 - r2)
r5 = r1
r6 = ("b"? | r0? | (r2 | r3)) - ((r0 | pest::any) - ".") ~ (("b" - "b" - "c") | (r1 - r3 ~ r0) | "." | ("c" | r0 | r5 | r4))
r7 = !((!("b"))?)
r8 = (&(r5 - r5 - "."))?
r9 = (((r2 - r7) - "b"{1..3}) - ((r6 - r1 ~ r2) - (r5 | 'c'..'c') - (r6 ~ ".a" - r4)) - (r6 - "" - "b" - "b"){2..}) - pest::stack::push(r4 - r6? - (r2 - "b") ~ r7?) - (&(r7 - r4) - (r0? - ("b" - r1) - r2)) - ("."? - (r3{1..3} | (pest::any | r2 | "ca") | r7))
r10 = !(r2) - &('c'..'c')
r11 = !(('c'..'c' | "a") - (r3 | r3) - r0{1..3}) | (r3 - (&(r7))?) | r3
r12 = (r3 ~ r2)? - &('b'..'b' - r2 - r3) ~ ("."{1..3})? - &(r7 | r9 | "c")
r13 = (&("."?) - r9 - ("b"? | ("a" ~ r9 ~ r8)) - (r2? - (r11 - r2 - r5) - (r8 - r6)))?
r14 = pest::stack::push(r1{1..2} - (r12 | "ca") - (r4 | r0) - r1)
r15 = ((r2 ~ r14 ~ r4) ~ (r0 | r5 | r0 | r13) - ("." | 'a'..'b')) | ((r10 - r8 ~ ".") | ("b" | r11) | &(r11) | ("b" ~ 'a'..'d' - r10)) | r5*
_r16 = _{ ((r13 - r7 - r9) ~ r15?) - pest::stack::push(r15 | r9 | r10) - ((r0 | "a") - ("b" - r10 - r0)) }
_r17 = _{ (&((_r16 | r14 | r13 | r13) | (r9 - r13)))? }
_r18 = _{ !(r15) - _r16? - r14 - _r16{..} }
r19 = (!("bb") | (r4 | r15) | ("b" | _r16) | r15?)?
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S("b");
    r1 = Seq(&[(T::N, x::r0), (T::N, x::r0), (T::N, x::r0)]);
    r2 = Seq(&[(T::N, S("aa")), (T::N, x::r0), (T::O, x::r0)]);
    r3 = Rep(&Seq(&[(T::N, Seq(&[(T::N, Seq(&[(T::N, S("c")), (T::N, x::r0), (T::N, x::r1), (T::O, S("."))])), (T::O, S("."))])), (T::N, Opt(&Alt(&[x::r2, S("a")]))), (T::N, Seq(&[(T::N, Seq(&[(T::N, x::r0), (T::N, x::r0), (T::N, x::r0)])), (T::N, Seq(&[(T::N, x::r2), (T::N, x::r2), (T::O, x::r1)]))]))]), 2, 2, T::N);
    r4 = Pos(&Seq(&[(T::N, x::r3), (T::N, R('b', 'b')), (T::N, x::r1), (T::N, x::r2)]));
    r5 = x::r1;
    r6 = Seq(&[(T::O, Alt(&[Opt(&S("b")), Opt(&x::r0), Alt(&[x::r2, x::r3])])), (T::N, Seq(&[(T::N, Alt(&[x::r0, Any])), (T::N, S("."))])), (T::O, Alt(&[Seq(&[(T::N, S("b")), (T::N, S("b")), (T::N, S("c"))]), Seq(&[(T::N, x::r1), (T::N, x::r3), (T::O, x::r0)]), S("."), Alt(&[S("c"), x::r0, x::r5, x::r4])]))]);
    r7 = Neg(&Opt(&Neg(&S("b"))));
    r8 = Opt(&Pos(&Seq(&[(T::N, x::r5), (T::N, x::r5), (T::N, S("."))])));
    r9 = Seq(&[(T::N, Seq(&[(T::N, Seq(&[(T::N, Seq(&[(T::N, x::r2), (T::N, x::r7)])), (T::N, Rep(&S("b"), 1, 3, T::N))])), (T::N, Seq(&[(T::N, Seq(&[(T::N, x::r6), (T::N, x::r1), (T::O, x::r2)])), (T::N, Alt(&[x::r5, R('c', 'c')])), (T::N, Seq(&[(T::N, x::r6), (T::O, S(".a")), (T::N, x::r4)]))])), (T::N, Rep(&Seq(&[(T::O, x::r6), (T::N, S("")), (T::N, S("b")), (T::N, S("b"))]), 2, INF, T::N))])), (T::N, Push(&Seq(&[(T::N, x::r4), (T::N, Opt(&x::r6)), (T::N, Seq(&[(T::N, x::r2), (T::N, S("b"))])), (T::O, Opt(&x::r7))]))), (T::N, Seq(&[(T::N, Pos(&Seq(&[(T::N, x::r7), (T::N, x::r4)]))), (T::N, Seq(&[(T::N, Opt(&x::r0)), (T::N, Seq(&[(T::N, S("b")), (T::N, x::r1)])), (T::N, x::r2)]))])), (T::N, Seq(&[(T::N, Opt(&S("."))), (T::N, Alt(&[Rep(&x::r3, 1, 3, T::N), Alt(&[Any, x::r2, S("ca")]), x::r7]))]))]);
    r10 = Seq(&[(T::O, Neg(&x::r2)), (T::N, Pos(&R('c', 'c')))]);
    r11 = Alt(&[Neg(&Seq(&[(T::N, Alt(&[R('c', 'c'), S("a")])), (T::N, Alt(&[x::r3, x::r3])), (T::N, Rep(&x::r0, 1, 3, T::N))])), Seq(&[(T::N, x::r3), (T::N, Opt(&Pos(&x::r7)))]), x::r3]);
    r12 = Seq(&[(T::N, Opt(&Seq(&[(T::O, x::r3), (T::O, x::r2)]))), (T::N, Pos(&Seq(&[(T::N, R('b', 'b')), (T::N, x::r2), (T::N, x::r3)]))), (T::O, Opt(&Rep(&S("."), 1, 3, T::N))), (T::N, Pos(&Alt(&[x::r7, x::r9, S("c")])))]);
    r13 = Opt(&Seq(&[(T::N, Pos(&Opt(&S(".")))), (T::N, x::r9), (T::N, Alt(&[Opt(&S("b")), Seq(&[(T::N, S("a")), (T::O, x::r9), (T::O, x::r8)])])), (T::N, Seq(&[(T::O, Opt(&x::r2)), (T::N, Seq(&[(T::N, x::r11), (T::N, x::r2), (T::N, x::r5)])), (T::N, Seq(&[(T::N, x::r8), (T::N, x::r6)]))]))]));
    r14 = Push(&Seq(&[(T::O, Rep(&x::r1, 1, 2, T::N)), (T::N, Alt(&[x::r12, S("ca")])), (T::N, Alt(&[x::r4, x::r0])), (T::N, x::r1)]));
    r15 = Alt(&[Seq(&[(T::N, Seq(&[(T::N, x::r2), (T::O, x::r14), (T::O, x::r4)])), (T::O, Alt(&[x::r0, x::r5, x::r0, x::r13])), (T::N, Alt(&[S("."), R('a', 'b')]))]), Alt(&[Seq(&[(T::N, x::r10), (T::N, x::r8), (T::O, S("."))]), Alt(&[S("b"), x::r11]), Pos(&x::r11), Seq(&[(T::N, S("b")), (T::O, R('a', 'd')), (T::N, x::r10)])]), Rep(&x::r5, 0, INF, T::N)]);
    _r16 "_" = Seq(&[(T::N, Seq(&[(T::N, Seq(&[(T::N, x::r13), (T::N, x::r7), (T::N, x::r9)])), (T::O, Opt(&x::r15))])), (T::N, Push(&Alt(&[x::r15, x::r9, x::r10]))), (T::N, Seq(&[(T::O, Alt(&[x::r0, S("a")])), (T::N, Seq(&[(T::N, S("b")), (T::N, x::r10), (T::N, x::r0)]))]))]);
    _r17 "_" = Opt(&Pos(&Alt(&[Alt(&[x::_r16, x::r14, x::r13, x::r13]), Seq(&[(T::O, x::r9), (T::N, x::r13)])])));
    _r18 "_" = Seq(&[(T::N, Neg(&x::r15)), (T::N, Opt(&x::_r16)), (T::N, x::r14), (T::N, Rep(&x::_r16, 0, INF, T::N))]);
    r19 = Opt(&Alt(&[Neg(&S("bb")), Alt(&[x::r4, x::r15]), Alt(&[S("b"), x::_r16]), Opt(&x::r15)]));
}
sp!(acc0: r0 r1 r2 r3 r4 r5 r6 r7 r8 r9 r10 r11 r12 r13 r14 r15 _r16 _r17 _r18 r19;);
fn acc0_parts(k: usize, s: &'static str) { match k {
    1 => accessors_of!(acc0, r1: r0; s),
    2 => accessors_of!(acc0, r2: r0; s),
    3 => accessors_of!(acc0, r3: r0 r1 r2; s),
    4 => accessors_of!(acc0, r4: r3 r1 r2; s),
    5 => accessors_of!(acc0, r5: r1; s),
    6 => accessors_of!(acc0, r6: r0 r2 r3 r1 r5 r4; s),
    8 => accessors_of!(acc0, r8: r5; s),
    9 => accessors_of!(acc0, r9: r2 r7 r6 r1 r5 r4 r0 r3; s),
    11 => accessors_of!(acc0, r11: r3 r7; s),
    12 => accessors_of!(acc0, r12: r3 r2 r7 r9; s),
    13 => accessors_of!(acc0, r13: r9 r8 r2 r11 r5 r6; s),
    15 => accessors_of!(acc0, r15: r2 r14 r4 r0 r5 r13 r10 r8 r11; s),
    16 => accessors_of!(acc0, _r16: r13 r7 r9 r15 r0 r10; s),
    17 => accessors_of!(acc0, _r17: _r16 r14 r13 r9; s),
    18 => accessors_of!(acc0, _r18: _r16 r14; s),
    19 => accessors_of!(acc0, r19: r4 r15 _r16; s),
    _ => {}
} }
suite! { mod acc1 = r##"
~ = " "
^ = "_"
r0 = ".a"
r1 = "" | r0
r2 = "" | r1 | r1 | r0
_r3 = _{ r1 ~ (r0 | pest::stack::push(r2)) - ((r2 - r1) - r1 - (r2 ~ "" - r1 - r1) ~ (r0 ~ "cc")) - (&('a'..'b') - "a"{1..} - r1?) }
r4 = ("c"{1..} | (r2 - _r3 ~ "ca") | "cc"? | &("")) | "a" | &(&("a"))
r5 = ("b" | r0){2..}
r6 = (("a" - _r3 - 'a'..'a' - r0){1..3}){1..3}
r7 = ((_r3 - (r1 | pest::any)) ~ (("bb" | _r3 | pest::any | _r3) - _r3) - ("b"~+ | "ac"? | r5{1..2}) ~ (r4? | "a"~{1..3} | (r0 - "a"))) | (("cb"?)? - ((r0 - r1) - ("ac" - r6 ~ _r3)))
_r8 = _{ (("a" - _r3 - r0) ~ "c"?) - ((r5 - "a" - "b") - ("b" - "cb") ~ r5~{2} - &(r2)) }
r9 = (r0 | r6 | r6 | "ba"){0..1} | (&(r4) - &("c.") - _r3?) | "a" | ((_r8 - r5 - _r3) - "a" - r7* - (_r3 | r5 | r4))
r10 = (pest::stack::push(r7))?
r11 = (r4? - r2? ~ r1? ~ "b"? - "c"? - r9? - r10? - r0?)?
r12 = (r5 - _r3 - r7 - r4)~{..} - (&(_r3))?
r13 = ((r4 - 'c'..'d') | !(r0)) - r9
r14 = &((r13 - "b" - _r3 ~ r13) | "c"?)
r15 = pest::stack::push(r7) | (r11 - ".") | (r10 - r0 - r1) | ""?
r16 = (&("cc" | "b"))?
r17 = (r16? - _r8? - _r8? - _r3? - r7? - r2 - _r8? - r4? ~ "b"? - "a"? - r15 - "a"? ~ "a"? ~ r12? - "c"? - r16? - r2) - ((r7 | ".")~{1..2} - (("a" | "c") | r1 | (r5 - r5 ~ r0 ~ 'a'..'d') | "c" | ("." - r6? - r0? - "c" ~ r11? - r13? - r13 - _r3 - 'a'..'d' - r1? - "ba"? - "." - 'c'..'c' ~ "ba"? - r4? - "b"? - "a"? - r5 - r10? - _r8?) | r6 | "cc" | r1? | "b"{..} | r5 | (r14 - "a") | "." | r0{1..3} | pest::stack::push(r12) | "a"+ | ((r14 - r9 - _r8) | "a" | r5 | "a"~{1} | (r0 | "." | "a" | r15) | (r7 - r11 ~ r7) | ("c" - r7)) | "a") ~ r1?)
r18 = pest::stack::push(&(r4))
r19 = r5
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S(".a");
    r1 = Alt(&[S(""), x::r0]);
    r2 = Alt(&[S(""), x::r1, x::r1, x::r0]);
    _r3 "_" = Seq(&[(T::N, x::r1), (T::O, Alt(&[x::r0, Push(&x::r2)])), (T::N, Seq(&[(T::O, Seq(&[(T::N, x::r2), (T::N, x::r1)])), (T::N, x::r1), (T::N, Seq(&[(T::N, x::r2), (T::O, S("")), (T::N, x::r1), (T::N, x::r1)])), (T::O, Seq(&[(T::N, x::r0), (T::O, S("cc"))]))])), (T::N, Seq(&[(T::N, Pos(&R('a', 'b'))), (T::N, Rep(&S("a"), 1, INF, T::N)), (T::N, Opt(&x::r1))]))]);
    r4 = Alt(&[Alt(&[Rep(&S("c"), 1, INF, T::N), Seq(&[(T::N, x::r2), (T::N, x::_r3), (T::O, S("ca"))]), Opt(&S("cc")), Pos(&S(""))]), S("a"), Pos(&Pos(&S("a")))]);
    r5 = Rep(&Alt(&[S("b"), x::r0]), 2, INF, T::N);
    r6 = Rep(&Rep(&Seq(&[(T::N, S("a")), (T::N, x::_r3), (T::N, R('a', 'a')), (T::N, x::r0)]), 1, 3, T::N), 1, 3, T::N);
    r7 = Alt(&[Seq(&[(T::N, Seq(&[(T::N, x::_r3), (T::N, Alt(&[x::r1, Any]))])), (T::O, Seq(&[(T::O, Alt(&[S("bb"), x::_r3, Any, x::_r3])), (T::N, x::_r3)])), (T::N, Alt(&[Rep(&S("b"), 1, INF, T::O), Opt(&S("ac")), Rep(&x::r5, 1, 2, T::N)])), (T::O, Alt(&[Opt(&x::r4), Rep(&S("a"), 1, 3, T::O), Seq(&[(T::N, x::r0), (T::N, S("a"))])]))]), Seq(&[(T::N, Opt(&Opt(&S("cb")))), (T::N, Seq(&[(T::N, Seq(&[(T::N, x::r0), (T::N, x::r1)])), (T::N, Seq(&[(T::O, S("ac")), (T::N, x::r6), (T::O, x::_r3)]))]))])]);
    _r8 "_" = Seq(&[(T::O, Seq(&[(T::O, Seq(&[(T::O, S("a")), (T::N, x::_r3), (T::N, x::r0)])), (T::O, Opt(&S("c")))])), (T::N, Seq(&[(T::N, Seq(&[(T::N, x::r5), (T::N, S("a")), (T::N, S("b"))])), (T::N, Seq(&[(T::N, S("b")), (T::N, S("cb"))])), (T::O, Rep(&x::r5, 2, 2, T::O)), (T::N, Pos(&x::r2))]))]);
    r9 = Alt(&[Rep(&Alt(&[x::r0, x::r6, x::r6, S("ba")]), 0, 1, T::N), Seq(&[(T::N, Pos(&x::r4)), (T::N, Pos(&S("c."))), (T::N, Opt(&x::_r3))]), S("a"), Seq(&[(T::N, Seq(&[(T::N, x::_r8), (T::N, x::r5), (T::N, x::_r3)])), (T::N, S("a")), (T::N, Rep(&x::r7, 0, INF, T::N)), (T::N, Alt(&[x::_r3, x::r5, x::r4]))])]);
    r10 = Opt(&Push(&x::r7));
    r11 = Opt(&Seq(&[(T::N, Opt(&x::r4)), (T::N, Opt(&x::r2)), (T::O, Opt(&x::r1)), (T::O, Opt(&S("b"))), (T::N, Opt(&S("c"))), (T::N, Opt(&x::r9)), (T::N, Opt(&x::r10)), (T::N, Opt(&x::r0))]));
    r12 = Seq(&[(T::O, Rep(&Seq(&[(T::N, x::r5), (T::N, x::_r3), (T::N, x::r7), (T::N, x::r4)]), 0, INF, T::O)), (T::N, Opt(&Pos(&x::_r3)))]);
    r13 = Seq(&[(T::O, Alt(&[Seq(&[(T::O, x::r4), (T::N, R('c', 'd'))]), Neg(&x::r0)])), (T::N, x::r9)]);
    r14 = Pos(&Alt(&[Seq(&[(T::N, x::r13), (T::N, S("b")), (T::N, x::_r3), (T::O, x::r13)]), Opt(&S("c"))]));
    r15 = Alt(&[Push(&x::r7), Seq(&[(T::N, x::r11), (T::N, S("."))]), Seq(&[(T::O, x::r10), (T::N, x::r0), (T::N, x::r1)]), Opt(&S(""))]);
    r16 = Opt(&Pos(&Alt(&[S("cc"), S("b")])));
    r17 = Seq(&[(T::N, Seq(&[(T::O, Opt(&x::r16)), (T::N, Opt(&x::_r8)), (T::N, Opt(&x::_r8)), (T::N, Opt(&x::_r3)), (T::N, Opt(&x::r7)), (T::N, x::r2), (T::N, Opt(&x::_r8)), (T::N, Opt(&x::r4)), (T::O, Opt(&S("b"))), (T::N, Opt(&S("a"))), (T::N, x::r15), (T::N, Opt(&S("a"))), (T::O, Opt(&S("a"))), (T::O, Opt(&x::r12)), (T::N, Opt(&S("c"))), (T::N, Opt(&x::r16)), (T::N, x::r2)])), (T::N, Seq(&[(T::O, Rep(&Alt(&[x::r7, S(".")]), 1, 2, T::O)), (T::N, Alt(&[Alt(&[S("a"), S("c")]), x::r1, Seq(&[(T::N, x::r5), (T::N, x::r5), (T::O, x::r0), (T::O, R('a', 'd'))]), S("c"), Seq(&[(T::N, S(".")), (T::N, Opt(&x::r6)), (T::N, Opt(&x::r0)), (T::N, S("c")), (T::O, Opt(&x::r11)), (T::N, Opt(&x::r13)), (T::N, x::r13), (T::N, x::_r3), (T::N, R('a', 'd')), (T::N, Opt(&x::r1)), (T::N, Opt(&S("ba"))), (T::N, S(".")), (T::N, R('c', 'c')), (T::O, Opt(&S("ba"))), (T::N, Opt(&x::r4)), (T::N, Opt(&S("b"))), (T::N, Opt(&S("a"))), (T::N, x::r5), (T::N, Opt(&x::r10)), (T::N, Opt(&x::_r8))]), x::r6, S("cc"), Opt(&x::r1), Rep(&S("b"), 0, INF, T::N), x::r5, Seq(&[(T::N, x::r14), (T::N, S("a"))]), S("."), Rep(&x::r0, 1, 3, T::N), Push(&x::r12), Rep(&S("a"), 1, INF, T::N), Alt(&[Seq(&[(T::N, x::r14), (T::N, x::r9), (T::N, x::_r8)]), S("a"), x::r5, Rep(&S("a"), 1, 1, T::O), Alt(&[x::r0, S("."), S("a"), x::r15]), Seq(&[(T::N, x::r7), (T::N, x::r11), (T::O, x::r7)]), Seq(&[(T::N, S("c")), (T::N, x::r7)])]), S("a")])), (T::O, Opt(&x::r1))]))]);
    r18 = Push(&Pos(&x::r4));
    r19 = x::r5;
}
sp!(acc1: r0 r1 r2 _r3 r4 r5 r6 r7 _r8 r9 r10 r11 r12 r13 r14 r15 r16 r17 r18 r19;);
fn acc1_parts(k: usize, s: &'static str) { match k {
    1 => accessors_of!(acc1, r1: r0; s),
    2 => accessors_of!(acc1, r2: r1 r0; s),
    3 => accessors_of!(acc1, _r3: r1 r0 r2; s),
    4 => accessors_of!(acc1, r4: r2 _r3; s),
    5 => accessors_of!(acc1, r5: r0; s),
    6 => accessors_of!(acc1, r6: _r3 r0; s),
    7 => accessors_of!(acc1, r7: _r3 r1 r5 r4 r0 r6; s),
    8 => accessors_of!(acc1, _r8: _r3 r0 r5 r2; s),
    9 => accessors_of!(acc1, r9: r0 r6 r4 _r3 _r8 r5 r7; s),
    11 => accessors_of!(acc1, r11: r4 r2 r1 r9 r10 r0; s),
    12 => accessors_of!(acc1, r12: r5 _r3 r7 r4; s),
    13 => accessors_of!(acc1, r13: r4 r9; s),
    14 => accessors_of!(acc1, r14: r13 _r3; s),
    15 => accessors_of!(acc1, r15: r11 r10 r0 r1; s),
    17 => accessors_of!(acc1, r17: r16 _r8 _r3 r7 r2 r4 r15 r12 r1 r5 r0 r6 r11 r13 r10 r14 r9; s),
    19 => accessors_of!(acc1, r19: r5; s),
    _ => {}
} }
suite! { mod acc2 = r##"
~ = " "
^ = "_"
r0 = "ab"
r1 = "bc"~{0..1}
r2 = ""
r3 = (("." | r0) - (r0 - r2))~{3}
r4 = !(r0) | (r3~{1..3}){1..3} | (r0?)? | (r3 - "ba" - r1? - "ca" - "c" - r1? ~ r3? - r2? - "b."? - "c"? - r0? - pest::any ~ "b")
r5 = &(r0 | "bb")
r6 = pest::stack::push(r5) - r1? ~ ("c" | r4)
r7 = (r1 - r3 ~ "a")~{1} | ("c"? ~ r0? - r6? ~ "b" - r5? - "."? - r5? ~ r0? - r2 - "."? ~ r2? - r1? - "a"? - "b" ~ "aa"? - "a"?) | ("b"{2..}){0..1}
r8 = r3{2}
r9 = &(&(r7)) - ((r2 | r1 | r7 | r7) - &(r2) ~ (r0 - "c" ~ r4)) - ((r6 - r6 - r1 - 'c'..'c') | "a"?) - ((r3 | r8 | r8) - "cb" - !(r7))
r10 = !(&("aa"))
r11 = ((r2? - r7? ~ r3? - r9? - r7? ~ r1? - r7? ~ "aa"? - "c"? - r7 - r9? - r10? ~ r1? - r10? - "a"? - r2? - r2?) | (!(r0) | &(r6) | (r5 | "c" | "b") | (r4? ~ r0 - r4 - r5 - "b" - r1 ~ r9 - r0 - r3? - r7? ~ r0? - r5? - r0? - r4? ~ r0 ~ "."? - r1? - r9? - (pest::any)? - "a"?)) | pest::stack::push(r5 - "" - r10 - r5) | &(r8?)) - pest::stack::push(r6)
r12 = ((r10 - (r1 - pest::any - "b") - ("." - r5)) | (("a" | 'b'..'d') ~ !("a")) | r8){1}
r13 = ('b'..'c' | r1) | ("c" ~ r1 - r7 - "..")
_r14 = _{ (r3 - r9? - r8? ~ "c"? - pest::any ~ ('a'..'c')? - r6 - r2? - "c"? - r13? - r1? - "c"?) - (r12 - "a" - r3) }
r15 = ((r6 - "a") | "cb") - (pest::stack::push(r8) - r11 - (r0 | r12 | r8) ~ (r12 | "." | r1 | _r14)) ~ (("a" | 'b'..'b' | _r14) | ('a'..'b'){3})
r16 = (("c" - r1 - ".") ~ (r5 | r4)){1}
r17 = &(r12{1..3}) | ("c."{2..} | "a"?) | (("a" | r0 | r8) - (r5 - 'b'..'c')) | (pest::stack::push(r3) - (r0 - r15 - "b.") - ("" - r3 - r10 - "ba"))
r18 = ("."{..2} - &(_r14) ~ !(r1)) | r12{2} | (r9 ~ "." - r15 - "a"){1}
r19 = !("a."?)
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S("ab");
    r1 = Rep(&S("bc"), 0, 1, T::O);
    r2 = S("");
    r3 = Rep(&Seq(&[(T::O, Alt(&[S("."), x::r0])), (T::N, Seq(&[(T::N, x::r0), (T::N, x::r2)]))]), 3, 3, T::O);
    r4 = Alt(&[Neg(&x::r0), Rep(&Rep(&x::r3, 1, 3, T::O), 1, 3, T::N), Opt(&Opt(&x::r0)), Seq(&[(T::N, x::r3), (T::N, S("ba")), (T::N, Opt(&x::r1)), (T::N, S("ca")), (T::N, S("c")), (T::N, Opt(&x::r1)), (T::O, Opt(&x::r3)), (T::N, Opt(&x::r2)), (T::N, Opt(&S("b."))), (T::N, Opt(&S("c"))), (T::N, Opt(&x::r0)), (T::N, Any), (T::O, S("b"))])]);
    r5 = Pos(&Alt(&[x::r0, S("bb")]));
    r6 = Seq(&[(T::N, Push(&x::r5)), (T::N, Opt(&x::r1)), (T::O, Alt(&[S("c"), x::r4]))]);
    r7 = Alt(&[Rep(&Seq(&[(T::N, x::r1), (T::N, x::r3), (T::O, S("a"))]), 1, 1, T::O), Seq(&[(T::N, Opt(&S("c"))), (T::O, Opt(&x::r0)), (T::N, Opt(&x::r6)), (T::O, S("b")), (T::N, Opt(&x::r5)), (T::N, Opt(&S("."))), (T::N, Opt(&x::r5)), (T::O, Opt(&x::r0)), (T::N, x::r2), (T::N, Opt(&S("."))), (T::O, Opt(&x::r2)), (T::N, Opt(&x::r1)), (T::N, Opt(&S("a"))), (T::N, S("b")), (T::O, Opt(&S("aa"))), (T::N, Opt(&S("a")))]), Rep(&Rep(&S("b"), 2, INF, T::N), 0, 1, T::N)]);
    r8 = Rep(&x::r3, 2, 2, T::N);
    r9 = Seq(&[(T::O, Pos(&Pos(&x::r7))), (T::N, Seq(&[(T::O, Alt(&[x::r2, x::r1, x::r7, x::r7])), (T::N, Pos(&x::r2)), (T::O, Seq(&[(T::N, x::r0), (T::N, S("c")), (T::O, x::r4)]))])), (T::N, Alt(&[Seq(&[(T::N, x::r6), (T::N, x::r6), (T::N, x::r1), (T::N, R('c', 'c'))]), Opt(&S("a"))])), (T::N, Seq(&[(T::N, Alt(&[x::r3, x::r8, x::r8])), (T::N, S("cb")), (T::N, Neg(&x::r7))]))]);
    r10 = Neg(&Pos(&S("aa")));
    r11 = Seq(&[(T::N, Alt(&[Seq(&[(T::N, Opt(&x::r2)), (T::N, Opt(&x::r7)), (T::O, Opt(&x::r3)), (T::N, Opt(&x::r9)), (T::N, Opt(&x::r7)), (T::O, Opt(&x::r1)), (T::N, Opt(&x::r7)), (T::O, Opt(&S("aa"))), (T::N, Opt(&S("c"))), (T::N, x::r7), (T::N, Opt(&x::r9)), (T::N, Opt(&x::r10)), (T::O, Opt(&x::r1)), (T::N, Opt(&x::r10)), (T::N, Opt(&S("a"))), (T::N, Opt(&x::r2)), (T::N, Opt(&x::r2))]), Alt(&[Neg(&x::r0), Pos(&x::r6), Alt(&[x::r5, S("c"), S("b")]), Seq(&[(T::N, Opt(&x::r4)), (T::O, x::r0), (T::N, x::r4), (T::N, x::r5), (T::N, S("b")), (T::N, x::r1), (T::O, x::r9), (T::N, x::r0), (T::N, Opt(&x::r3)), (T::N, Opt(&x::r7)), (T::O, Opt(&x::r0)), (T::N, Opt(&x::r5)), (T::N, Opt(&x::r0)), (T::N, Opt(&x::r4)), (T::O, x::r0), (T::O, Opt(&S("."))), (T::N, Opt(&x::r1)), (T::N, Opt(&x::r9)), (T::N, Opt(&Any)), (T::N, Opt(&S("a")))])]), Push(&Seq(&[(T::N, x::r5), (T::N, S("")), (T::N, x::r10), (T::N, x::r5)])), Pos(&Opt(&x::r8))])), (T::N, Push(&x::r6))]);
    r12 = Rep(&Alt(&[Seq(&[(T::N, x::r10), (T::N, Seq(&[(T::N, x::r1), (T::N, Any), (T::N, S("b"))])), (T::N, Seq(&[(T::N, S(".")), (T::N, x::r5)]))]), Seq(&[(T::N, Alt(&[S("a"), R('b', 'd')])), (T::O, Neg(&S("a")))]), x::r8]), 1, 1, T::N);
    r13 = Alt(&[Alt(&[R('b', 'c'), x::r1]), Seq(&[(T::O, S("c")), (T::O, x::r1), (T::N, x::r7), (T::N, S(".."))])]);
    _r14 "_" = Seq(&[(T::N, Seq(&[(T::N, x::r3), (T::N, Opt(&x::r9)), (T::N, Opt(&x::r8)), (T::O, Opt(&S("c"))), (T::N, Any), (T::O, Opt(&R('a', 'c'))), (T::N, x::r6), (T::N, Opt(&x::r2)), (T::N, Opt(&S("c"))), (T::N, Opt(&x::r13)), (T::N, Opt(&x::r1)), (T::N, Opt(&S("c")))])), (T::N, Seq(&[(T::N, x::r12), (T::N, S("a")), (T::N, x::r3)]))]);
    r15 = Seq(&[(T::N, Alt(&[Seq(&[(T::N, x::r6), (T::N, S("a"))]), S("cb")])), (T::N, Seq(&[(T::N, Push(&x::r8)), (T::N, x::r11), (T::N, Alt(&[x::r0, x::r12, x::r8])), (T::O, Alt(&[x::r12, S("."), x::r1, x::_r14]))])), (T::O, Alt(&[Alt(&[S("a"), R('b', 'b'), x::_r14]), Rep(&R('a', 'b'), 3, 3, T::N)]))]);
    r16 = Rep(&Seq(&[(T::N, Seq(&[(T::N, S("c")), (T::N, x::r1), (T::N, S("."))])), (T::O, Alt(&[x::r5, x::r4]))]), 1, 1, T::N);
    r17 = Alt(&[Pos(&Rep(&x::r12, 1, 3, T::N)), Alt(&[Rep(&S("c."), 2, INF, T::N), Opt(&S("a"))]), Seq(&[(T::N, Alt(&[S("a"), x::r0, x::r8])), (T::N, Seq(&[(T::N, x::r5), (T::N, R('b', 'c'))]))]), Seq(&[(T::N, Push(&x::r3)), (T::N, Seq(&[(T::N, x::r0), (T::N, x::r15), (T::N, S("b."))])), (T::N, Seq(&[(T::O, S("")), (T::N, x::r3), (T::N, x::r10), (T::N, S("ba"))]))])]);
    r18 = Alt(&[Seq(&[(T::N, Rep(&S("."), 0, 2, T::N)), (T::N, Pos(&x::_r14)), (T::O, Neg(&x::r1))]), Rep(&x::r12, 2, 2, T::N), Rep(&Seq(&[(T::O, x::r9), (T::O, S(".")), (T::N, x::r15), (T::N, S("a"))]), 1, 1, T::N)]);
    r19 = Neg(&Opt(&S("a.")));
}
sp!(acc2: r0 r1 r2 r3 r4 r5 r6 r7 r8 r9 r10 r11 r12 r13 _r14 r15 r16 r17 r18 r19;);
fn acc2_parts(k: usize, s: &'static str) { match k {
    3 => accessors_of!(acc2, r3: r0 r2; s),
    4 => accessors_of!(acc2, r4: r3 r0 r1 r2; s),
    5 => accessors_of!(acc2, r5: r0; s),
    6 => accessors_of!(acc2, r6: r1 r4; s),
    7 => accessors_of!(acc2, r7: r1 r3 r0 r6 r5 r2; s),
    8 => accessors_of!(acc2, r8: r3; s),
    9 => accessors_of!(acc2, r9: r7 r2 r1 r0 r4 r6 r3 r8; s),
    11 => accessors_of!(acc2, r11: r2 r7 r3 r9 r1 r10 r6 r5 r4 r0 r8; s),
    12 => accessors_of!(acc2, r12: r10 r1 r5 r8; s),
    13 => accessors_of!(acc2, r13: r1 r7; s),
    14 => accessors_of!(acc2, _r14: r3 r9 r8 r6 r2 r13 r1 r12; s),
    15 => accessors_of!(acc2, r15: r6 r11 r0 r12 r8 r1 _r14; s),
    16 => accessors_of!(acc2, r16: r1 r5 r4; s),
    17 => accessors_of!(acc2, r17: r12 r0 r8 r5 r15 r3 r10; s),
    18 => accessors_of!(acc2, r18: _r14 r12 r9 r15; s),
    _ => {}
} }
suite! { mod acc3 = r##"
~ = " "
^ = "_"
r0 = "b"
r1 = r0?
r2 = r1 | r0 | r1
r3 = (r0 - (r0 - r1 ~ r0 - r0) ~ !(r1) ~ pest::stack::push(r1)) ~ (r0~{1})~{1..3}
r4 = ((r3 ~ "a" - r3 - "a") ~ (r3 ~ "c" - r3)){0..1}
r5 = ((&(r1))? - (r0? - r4? - r4 ~ "c" - r0? - r4 - r4? - r1 - ('a'..'c')? - "c")){..2}
r6 = ((r0 | r1 | r2) | (r4 ~ r2 - r3) | "."{2})?
r7 = (r4 - r5)?
r8 = (((pest::any | "b") | ('a'..'b' ~ r0) | r3{2..}) | (r3{1})? | r5 | (!(r6) | (r5 - "c") | (r6 - r3) | (r2 | r1 | "c" | r0)))?
r9 = (("b" - r7) - (r6 | r0)){..}
r10 = ("."{1..}){2..}
_r11 = _{ r2? ~ r8? - r0? - r5? ~ "."? - "."? }
r12 = r9
r13 = (!(r3{1..}) - &(r1?) - pest::stack::push("b" | "a" | r2))?
r14 = r0
r15 = ((pest::any - "b" ~ "c") - pest::stack::push("b") - (r10 - pest::any))?
r16 = &("a"? - &(pest::any) - (r3 | "a" | r3 | r14))
r17 = !(r5 | ".")
_r18 = _{ ("c" - r6)~+ | ((r12 ~ r15 - r16) | (r9 ~ "a" - r2) | r16?) | ((r12 | r8 | r3 | r17) - ('b'..'c' | r17 | "bb") - (r5? ~ r6 - r13? - ".a"? - "b"?)) | r1 }
r19 = &(("b" - r9 - r16) | (r15 | r1))
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S("b");
    r1 = Opt(&x::r0);
    r2 = Alt(&[x::r1, x::r0, x::r1]);
    r3 = Seq(&[(T::N, Seq(&[(T::N, x::r0), (T::N, Seq(&[(T::N, x::r0), (T::N, x::r1), (T::O, x::r0), (T::N, x::r0)])), (T::O, Neg(&x::r1)), (T::O, Push(&x::r1))])), (T::O, Rep(&Rep(&x::r0, 1, 1, T::O), 1, 3, T::O))]);
    r4 = Rep(&Seq(&[(T::N, Seq(&[(T::N, x::r3), (T::O, S("a")), (T::N, x::r3), (T::N, S("a"))])), (T::O, Seq(&[(T::N, x::r3), (T::O, S("c")), (T::N, x::r3)]))]), 0, 1, T::N);
    r5 = Rep(&Seq(&[(T::N, Opt(&Pos(&x::r1))), (T::N, Seq(&[(T::N, Opt(&x::r0)), (T::N, Opt(&x::r4)), (T::N, x::r4), (T::O, S("c")), (T::N, Opt(&x::r0)), (T::N, x::r4), (T::N, Opt(&x::r4)), (T::N, x::r1), (T::N, Opt(&R('a', 'c'))), (T::N, S("c"))]))]), 0, 2, T::N);
    r6 = Opt(&Alt(&[Alt(&[x::r0, x::r1, x::r2]), Seq(&[(T::N, x::r4), (T::O, x::r2), (T::N, x::r3)]), Rep(&S("."), 2, 2, T::N)]));
    r7 = Opt(&Seq(&[(T::N, x::r4), (T::N, x::r5)]));
    r8 = Opt(&Alt(&[Alt(&[Alt(&[Any, S("b")]), Seq(&[(T::O, R('a', 'b')), (T::O, x::r0)]), Rep(&x::r3, 2, INF, T::N)]), Opt(&Rep(&x::r3, 1, 1, T::N)), x::r5, Alt(&[Neg(&x::r6), Seq(&[(T::N, x::r5), (T::N, S("c"))]), Seq(&[(T::N, x::r6), (T::N, x::r3)]), Alt(&[x::r2, x::r1, S("c"), x::r0])])]));
    r9 = Rep(&Seq(&[(T::N, Seq(&[(T::N, S("b")), (T::N, x::r7)])), (T::N, Alt(&[x::r6, x::r0]))]), 0, INF, T::N);
    r10 = Rep(&Rep(&S("."), 1, INF, T::N), 2, INF, T::N);
    _r11 "_" = Seq(&[(T::N, Opt(&x::r2)), (T::O, Opt(&x::r8)), (T::N, Opt(&x::r0)), (T::N, Opt(&x::r5)), (T::O, Opt(&S("."))), (T::N, Opt(&S(".")))]);
    r12 = x::r9;
    r13 = Opt(&Seq(&[(T::N, Neg(&Rep(&x::r3, 1, INF, T::N))), (T::N, Pos(&Opt(&x::r1))), (T::N, Push(&Alt(&[S("b"), S("a"), x::r2])))]));
    r14 = x::r0;
    r15 = Opt(&Seq(&[(T::O, Seq(&[(T::O, Any), (T::N, S("b")), (T::O, S("c"))])), (T::N, Push(&S("b"))), (T::N, Seq(&[(T::N, x::r10), (T::N, Any)]))]));
    r16 = Pos(&Seq(&[(T::N, Opt(&S("a"))), (T::N, Pos(&Any)), (T::N, Alt(&[x::r3, S("a"), x::r3, x::r14]))]));
    r17 = Neg(&Alt(&[x::r5, S(".")]));
    _r18 "_" = Alt(&[Rep(&Seq(&[(T::O, S("c")), (T::N, x::r6)]), 1, INF, T::O), Alt(&[Seq(&[(T::O, x::r12), (T::O, x::r15), (T::N, x::r16)]), Seq(&[(T::N, x::r9), (T::O, S("a")), (T::N, x::r2)]), Opt(&x::r16)]), Seq(&[(T::N, Alt(&[x::r12, x::r8, x::r3, x::r17])), (T::N, Alt(&[R('b', 'c'), x::r17, S("bb")])), (T::N, Seq(&[(T::O, Opt(&x::r5)), (T::O, x::r6), (T::N, Opt(&x::r13)), (T::N, Opt(&S(".a"))), (T::N, Opt(&S("b")))]))]), x::r1]);
    r19 = Pos(&Alt(&[Seq(&[(T::N, S("b")), (T::N, x::r9), (T::N, x::r16)]), Alt(&[x::r15, x::r1])]));
}
sp!(acc3: r0 r1 r2 r3 r4 r5 r6 r7 r8 r9 r10 _r11 r12 r13 r14 r15 r16 r17 _r18 r19;);
fn acc3_parts(k: usize, s: &'static str) { match k {
    1 => accessors_of!(acc3, r1: r0; s),
    2 => accessors_of!(acc3, r2: r1 r0; s),
    3 => accessors_of!(acc3, r3: r0 r1; s),
    4 => accessors_of!(acc3, r4: r3; s),
    5 => accessors_of!(acc3, r5: r1 r0 r4; s),
    6 => accessors_of!(acc3, r6: r0 r1 r2 r4 r3; s),
    7 => accessors_of!(acc3, r7: r4 r5; s),
    8 => accessors_of!(acc3, r8: r0 r3 r5 r6 r2 r1; s),
    9 => accessors_of!(acc3, r9: r7 r6 r0; s),
    11 => accessors_of!(acc3, _r11: r2 r8 r0 r5; s),
    12 => accessors_of!(acc3, r12: r9; s),
    13 => accessors_of!(acc3, r13: r1; s),
    14 => accessors_of!(acc3, r14: r0; s),
    15 => accessors_of!(acc3, r15: r10; s),
    16 => accessors_of!(acc3, r16: r3 r14; s),
    18 => accessors_of!(acc3, _r18: r6 r12 r15 r16 r9 r2 r8 r3 r17 r5 r13 r1; s),
    19 => accessors_of!(acc3, r19: r9 r16 r15 r1; s),
    _ => {}
} }
suite! { mod acc4 = r##"
~ = " "
^ = "_"
r0 = 'b'..'c'
r1 = r0 - "b" - r0
r2 = !(r1)
r3 = ("c" - r2 - r2) | (r2 ~ r0 - r0) | "."+
r4 = (r3 - r1) - r3 - (r0 - "c" - r0)
r5 = r3 - "a"? - r0 - r2 - r3? - r0? - "b"? - r2? - r1 - r3? - r1? - r4?
r6 = (r0 - "b" - "c")?
r7 = !(r2 - (&(pest::any) - &(r6) ~ r2))
r8 = (pest::stack::push((pest::any)~{..}))?
r9 = (('a'..'b')?)?
r10 = (r6 ~ ("b" - r7 - r7) - !(r4) - (r0 - r7 - r5))+
r11 = &("c."? - r9 - 'c'..'d' - "c"? ~ "b")
r12 = "c"
r13 = &((("c" - r11 - r12){1})+)
r14 = ((("a" ~ r13 - r12) - ('a'..'b' - r5)){2}){2}
r15 = (r1? - r5? - r9 - r13? ~ r12? - (pest::any)? - "a"? ~ r3? - "c"? - r8 - r2? - "a."? - r8?) ~ &("c" ~ r4) - (r4 - r3 ~ r5)? ~ (("a" - r4 - r11) | r14~{1..3})
_r16 = _{ !(((r15 - r13 - "b" - r6){1..3}){1..2}) }
r17 = (pest::any)~{2} - (pest::any)? - (r10 | pest::any | r0) - ".a"?
r18 = pest::stack::push(r14? - ("b" - pest::any ~ r2))
r19 = ("b" | (r3 ~ pest::any - "a" - _r16) | (r2 | r10 | r8 | 'b'..'b') | r15{2..}) | (("c" | r12) - (r4 | r5 | r18 | r5) - r12) | ((r15 | r11) - (r14 - "c") - ("b" ~ r2 ~ "." ~ _r16))
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = R('b', 'c');
    r1 = Seq(&[(T::N, x::r0), (T::N, S("b")), (T::N, x::r0)]);
    r2 = Neg(&x::r1);
    r3 = Alt(&[Seq(&[(T::N, S("c")), (T::N, x::r2), (T::N, x::r2)]), Seq(&[(T::N, x::r2), (T::O, x::r0), (T::N, x::r0)]), Rep(&S("."), 1, INF, T::N)]);
    r4 = Seq(&[(T::N, Seq(&[(T::N, x::r3), (T::N, x::r1)])), (T::N, x::r3), (T::N, Seq(&[(T::N, x::r0), (T::N, S("c")), (T::N, x::r0)]))]);
    r5 = Seq(&[(T::N, x::r3), (T::N, Opt(&S("a"))), (T::N, x::r0), (T::N, x::r2), (T::N, Opt(&x::r3)), (T::N, Opt(&x::r0)), (T::N, Opt(&S("b"))), (T::N, Opt(&x::r2)), (T::N, x::r1), (T::N, Opt(&x::r3)), (T::N, Opt(&x::r1)), (T::N, Opt(&x::r4))]);
    r6 = Opt(&Seq(&[(T::N, x::r0), (T::N, S("b")), (T::N, S("c"))]));
    r7 = Neg(&Seq(&[(T::N, x::r2), (T::N, Seq(&[(T::O, Pos(&Any)), (T::N, Pos(&x::r6)), (T::O, x::r2)]))]));
    r8 = Opt(&Push(&Rep(&Any, 0, INF, T::O)));
    r9 = Opt(&Opt(&R('a', 'b')));
    r10 = Rep(&Seq(&[(T::N, x::r6), (T::O, Seq(&[(T::N, S("b")), (T::N, x::r7), (T::N, x::r7)])), (T::N, Neg(&x::r4)), (T::N, Seq(&[(T::N, x::r0), (T::N, x::r7), (T::N, x::r5)]))]), 1, INF, T::N);
    r11 = Pos(&Seq(&[(T::N, Opt(&S("c."))), (T::N, x::r9), (T::N, R('c', 'd')), (T::N, Opt(&S("c"))), (T::O, S("b"))]));
    r12 = S("c");
    r13 = Pos(&Rep(&Rep(&Seq(&[(T::N, S("c")), (T::N, x::r11), (T::N, x::r12)]), 1, 1, T::N), 1, INF, T::N));
    r14 = Rep(&Rep(&Seq(&[(T::N, Seq(&[(T::N, S("a")), (T::O, x::r13), (T::N, x::r12)])), (T::N, Seq(&[(T::N, R('a', 'b')), (T::N, x::r5)]))]), 2, 2, T::N), 2, 2, T::N);
    r15 = Seq(&[(T::N, Seq(&[(T::N, Opt(&x::r1)), (T::N, Opt(&x::r5)), (T::N, x::r9), (T::N, Opt(&x::r13)), (T::O, Opt(&x::r12)), (T::N, Opt(&Any)), (T::N, Opt(&S("a"))), (T::O, Opt(&x::r3)), (T::N, Opt(&S("c"))), (T::N, x::r8), (T::N, Opt(&x::r2)), (T::N, Opt(&S("a."))), (T::N, Opt(&x::r8))])), (T::O, Pos(&Seq(&[(T::N, S("c")), (T::O, x::r4)]))), (T::N, Opt(&Seq(&[(T::N, x::r4), (T::N, x::r3), (T::O, x::r5)]))), (T::O, Alt(&[Seq(&[(T::O, S("a")), (T::N, x::r4), (T::N, x::r11)]), Rep(&x::r14, 1, 3, T::O)]))]);
    _r16 "_" = Neg(&Rep(&Rep(&Seq(&[(T::O, x::r15), (T::N, x::r13), (T::N, S("b")), (T::N, x::r6)]), 1, 3, T::N), 1, 2, T::N));
    r17 = Seq(&[(T::O, Rep(&Any, 2, 2, T::O)), (T::N, Opt(&Any)), (T::N, Alt(&[x::r10, Any, x::r0])), (T::N, Opt(&S(".a")))]);
    r18 = Push(&Seq(&[(T::N, Opt(&x::r14)), (T::N, Seq(&[(T::N, S("b")), (T::N, Any), (T::O, x::r2)]))]));
    r19 = Alt(&[Alt(&[S("b"), Seq(&[(T::N, x::r3), (T::O, Any), (T::N, S("a")), (T::N, x::_r16)]), Alt(&[x::r2, x::r10, x::r8, R('b', 'b')]), Rep(&x::r15, 2, INF, T::N)]), Seq(&[(T::N, Alt(&[S("c"), x::r12])), (T::N, Alt(&[x::r4, x::r5, x::r18, x::r5])), (T::N, x::r12)]), Seq(&[(T::N, Alt(&[x::r15, x::r11])), (T::N, Seq(&[(T::N, x::r14), (T::N, S("c"))])), (T::N, Seq(&[(T::N, S("b")), (T::O, x::r2), (T::O, S(".")), (T::O, x::_r16)]))])]);
}
sp!(acc4: r0 r1 r2 r3 r4 r5 r6 r7 r8 r9 r10 r11 r12 r13 r14 r15 _r16 r17 r18 r19;);
fn acc4_parts(k: usize, s: &'static str) { match k {
    1 => accessors_of!(acc4, r1: r0; s),
    3 => accessors_of!(acc4, r3: r2 r0; s),
    4 => accessors_of!(acc4, r4: r3 r1 r0; s),
    5 => accessors_of!(acc4, r5: r3 r0 r2 r1 r4; s),
    6 => accessors_of!(acc4, r6: r0; s),
    10 => accessors_of!(acc4, r10: r6 r7 r0 r5; s),
    11 => accessors_of!(acc4, r11: r9; s),
    13 => accessors_of!(acc4, r13: r11 r12; s),
    14 => accessors_of!(acc4, r14: r13 r12 r5; s),
    15 => accessors_of!(acc4, r15: r1 r5 r9 r13 r12 r3 r8 r2 r4 r11 r14; s),
    17 => accessors_of!(acc4, r17: r10 r0; s),
    19 => accessors_of!(acc4, r19: r3 _r16 r2 r10 r8 r15 r12 r4 r5 r18 r11 r14; s),
    _ => {}
} }
fn any_acc() -> usize { choose(100) }
#[allow(unused)] fn run_acc(k: usize, s: &'static str) { match k / 20 { 0 => { acc0::run(k % 20, s); } 1 => { acc1::run(k % 20, s); } 2 => { acc2::run(k % 20, s); } 3 => { acc3::run(k % 20, s); } 4 => { acc4::run(k % 20, s); } _ => {} } }
#[allow(unused)] fn visit_acc<V: Visit>(k: usize, v: &mut V) { match k / 20 { 0 => acc0::visit(k % 20, v), 1 => acc1::visit(k % 20, v), 2 => acc2::visit(k % 20, v), 3 => acc3::visit(k % 20, v), 4 => acc4::visit(k % 20, v), _ => {} } }
fn parts_acc(k: usize, s: &'static str) { match k / 20 { 0 => acc0_parts(k % 20, s), 1 => acc1_parts(k % 20, s), 2 => acc2_parts(k % 20, s), 3 => acc3_parts(k % 20, s), 4 => acc4_parts(k % 20, s), _ => {} } }
