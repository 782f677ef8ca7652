// Written by bin/mkgen.py.
suite! { mod args0 = r##"
~ = " "
^ = "_"
p0(x0, x1) = x1 | "b" | x0
_p1(x0, x1, x2) = _{ p0("a"? - x1? ^ "ab"? - x1? - x0? - x2? ~ x1?, x0 ~ x0 - "a") }
_p2(x0, x1) = _{ "c."{1..} ~ "ba"^{1} - p0(x1, x0) }
_p3(x0, x1, x2) = _{ (x0 ^ x2 - "a" - x1) | x1? | p0(x2, "c") | ("c" - x2 - "b") }
p4(x0, x1) = "a" ~ x0 ^ x1
p5(x0) = "c" | x0 | x0
p6(x0, x1) = _p1(x0, x1 | x1, _p2("cb", "a"))
p7(x0, x1) = (x1 | "cc" | x0 | x1)?
r0 = "."
r1 = r0{0..1}
r2 = 'c'..'d' | r0
r3 = p7(pest::any | 'a'..'d', (pest::any)?)
_r4 = _{ &("." | "a" | "a") }
r5 = p0(r2?, 'b'..'b' ^ r0)
r6 = (&(r3))?
r7 = &(&(pest::any))
r8 = p5("cc")
r9 = p4(p7("b", _r4), "." - r8 ^ "a.")
_r10 = _{ (r7 | "a" | "b")? }
_r11 = _{ ((pest::any ~ r6 - r2) - _p3(r3, "b", r2) ^ r8? - _p3(".b", "a", r2)) | (p4("b.", ".") - "c"{1} - ("a" - r0)) | !("aa"~{1..2}) | p5(_p3("c", r5, "..")) }
_r12 = _{ ((pest::any)?)? }
r13 = "."~{..}
r14 = (r8 ~ "c" - "c" ^ ".") ~ (_r10 - _r11) - p6("b", "b")
r15 = "."
r16 = "a"? ^ (pest::any - "b") - "b"?
_r17 = _{ p4(p6("c", "c"), _r12?) }
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S(".");
    r1 = Rep(&x::r0, 0, 1, T::N);
    r2 = Alt(&[R('c', 'd'), x::r0]);
    r3 = Inst(Rule::p7 as u32, false, &Opt(&Alt(&[Opt(&Any), S("cc"), Alt(&[Any, R('a', 'd')]), Opt(&Any)])));
    _r4 "_" = Pos(&Alt(&[S("."), S("a"), S("a")]));
    r5 = Inst(Rule::p0 as u32, false, &Alt(&[Seq(&[(T::M, R('b', 'b')), (T::M, x::r0)]), S("b"), Opt(&x::r2)]));
    r6 = Opt(&Pos(&x::r3));
    r7 = Pos(&Pos(&Any));
    r8 = Inst(Rule::p5 as u32, false, &Alt(&[S("c"), S("cc"), S("cc")]));
    r9 = Inst(Rule::p4 as u32, false, &Seq(&[(T::N, S("a")), (T::O, Inst(Rule::p7 as u32, false, &Opt(&Alt(&[x::_r4, S("cc"), S("b"), x::_r4])))), (T::M, Seq(&[(T::M, S(".")), (T::N, x::r8), (T::M, S("a."))]))]));
    _r10 "_" = Opt(&Alt(&[x::r7, S("a"), S("b")]));
    _r11 "_" = Alt(&[Seq(&[(T::M, Seq(&[(T::N, Any), (T::O, x::r6), (T::N, x::r2)])), (T::N, Alt(&[Seq(&[(T::N, x::r3), (T::M, x::r2), (T::N, S("a")), (T::N, S("b"))]), Opt(&S("b")), Inst(Rule::p0 as u32, false, &Alt(&[S("c"), S("b"), x::r2])), Seq(&[(T::O, S("c")), (T::N, x::r2), (T::N, S("b"))])])), (T::M, Opt(&x::r8)), (T::N, Alt(&[Seq(&[(T::N, S(".b")), (T::M, x::r2), (T::N, S("a")), (T::N, S("a"))]), Opt(&S("a")), Inst(Rule::p0 as u32, false, &Alt(&[S("c"), S("b"), x::r2])), Seq(&[(T::O, S("c")), (T::N, x::r2), (T::N, S("b"))])]))]), Seq(&[(T::N, Inst(Rule::p4 as u32, false, &Seq(&[(T::N, S("a")), (T::O, S("b.")), (T::M, S("."))]))), (T::N, Rep(&S("c"), 1, 1, T::N)), (T::N, Seq(&[(T::N, S("a")), (T::N, x::r0)]))]), Neg(&Rep(&S("aa"), 1, 2, T::O)), Inst(Rule::p5 as u32, false, &Alt(&[S("c"), Alt(&[Seq(&[(T::N, S("c")), (T::M, S("..")), (T::N, S("a")), (T::N, x::r5)]), Opt(&x::r5), Inst(Rule::p0 as u32, false, &Alt(&[S("c"), S("b"), S("..")])), Seq(&[(T::O, S("c")), (T::N, S("..")), (T::N, S("b"))])]), Alt(&[Seq(&[(T::N, S("c")), (T::M, S("..")), (T::N, S("a")), (T::N, x::r5)]), Opt(&x::r5), Inst(Rule::p0 as u32, false, &Alt(&[S("c"), S("b"), S("..")])), Seq(&[(T::O, S("c")), (T::N, S("..")), (T::N, S("b"))])])]))]);
    _r12 "_" = Opt(&Opt(&Any));
    r13 = Rep(&S("."), 0, INF, T::O);
    r14 = Seq(&[(T::N, Seq(&[(T::O, x::r8), (T::O, S("c")), (T::N, S("c")), (T::M, S("."))])), (T::O, Seq(&[(T::N, x::_r10), (T::N, x::_r11)])), (T::N, Inst(Rule::p6 as u32, false, &Inst(Rule::p0 as u32, false, &Alt(&[Seq(&[(T::O, S("b")), (T::O, S("b")), (T::N, S("a"))]), S("b"), Seq(&[(T::M, Opt(&S("a"))), (T::N, Opt(&Alt(&[S("b"), S("b")]))), (T::M, Opt(&S("ab"))), (T::N, Opt(&Alt(&[S("b"), S("b")]))), (T::N, Opt(&S("b"))), (T::N, Opt(&Seq(&[(T::O, Rep(&S("c."), 1, INF, T::N)), (T::O, Rep(&S("ba"), 1, 1, T::M)), (T::N, Inst(Rule::p0 as u32, false, &Alt(&[S("cb"), S("b"), S("a")])))]))), (T::O, Opt(&Alt(&[S("b"), S("b")])))])]))))]);
    r15 = S(".");
    r16 = Seq(&[(T::O, Opt(&S("a"))), (T::M, Seq(&[(T::N, Any), (T::N, S("b"))])), (T::N, Opt(&S("b")))]);
    _r17 "_" = Inst(Rule::p4 as u32, false, &Seq(&[(T::N, S("a")), (T::O, Inst(Rule::p6 as u32, false, &Inst(Rule::p0 as u32, false, &Alt(&[Seq(&[(T::O, S("c")), (T::O, S("c")), (T::N, S("a"))]), S("b"), Seq(&[(T::M, Opt(&S("a"))), (T::N, Opt(&Alt(&[S("c"), S("c")]))), (T::M, Opt(&S("ab"))), (T::N, Opt(&Alt(&[S("c"), S("c")]))), (T::N, Opt(&S("c"))), (T::N, Opt(&Seq(&[(T::O, Rep(&S("c."), 1, INF, T::N)), (T::O, Rep(&S("ba"), 1, 1, T::M)), (T::N, Inst(Rule::p0 as u32, false, &Alt(&[S("cb"), S("b"), S("a")])))]))), (T::O, Opt(&Alt(&[S("c"), S("c")])))])])))), (T::M, Opt(&x::_r12))]));
}
suite! { mod args1 = r##"
~ = " "
^ = "_"
_p0(x0) = _{ ("c." - 'c'..'d') ~ &(x0) - !(x0) - ("ab" ~ "b") }
_p1(x0, x1, x2) = _{ ("." - x0 - "c" - x2) | ('a'..'a')^+ | (x1 - "b" ^ x0 - "a") }
p2(x0) = pest::any | x0 | "."
p3(x0, x1) = (x1 ~ x1 ^ x0)?
p4(x0) = &(p3(x0, x0))
p5(x0) = (x0 - "c")~{1..2}
p6(x0) = p3("c" - "c" ~ ".", "aa" - x0)
p7(x0, x1) = ('a'..'a')? - ('a'..'b')? ^ x1? ~ x0? ^ "a" - x1 ~ "a" ^ x0 - "a"? - x0
r0 = ".a"
_r1 = _{ p3(r0, r0) }
_r2 = _{ _p0("a") }
_r3 = _{ p4(_r1) | (r0 | "." | "cb") | p2('a'..'b') | p3(r0, "c") }
_r4 = _{ ("bb" ~ 'c'..'d') ^ "ba"? }
r5 = "."? ^ r0
r6 = p2(_p0(pest::any))
r7 = 'b'..'d'
_r8 = _{ p2('b'..'c' | "." | r0 | r0)^+ }
r9 = _p1("b", _r4, "cb")~{1..}
r10 = p5(".")?
r11 = p6("a" - "b")
r12 = p2("a"){2..}
r13 = (_p1("c", ".", "bc") | p3(".", r11)) | !("b"{2..}) | _p0("." - r12 - ".") | ((_r1 | _r3) ^ p5("cc") - p4("b") - "b")
_r14 = _{ p3(r12 - r11 ~ r0, "b" ~ _r4) }
r15 = p2("b"?)
r16 = _p1(_r4, r13, "c") - (r10 | pest::any | _r3 | r0)
r17 = _p1("ba"{3}, ('c'..'c'){1..2}, "." - r12)
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S(".a");
    _r1 "_" = Inst(Rule::p3 as u32, false, &Opt(&Seq(&[(T::M, x::r0), (T::O, x::r0), (T::M, x::r0)])));
    _r2 "_" = Seq(&[(T::O, Seq(&[(T::M, S("c.")), (T::N, R('c', 'd'))])), (T::O, Pos(&S("a"))), (T::N, Neg(&S("a"))), (T::N, Seq(&[(T::O, S("ab")), (T::O, S("b"))]))]);
    _r3 "_" = Alt(&[Inst(Rule::p4 as u32, false, &Pos(&Inst(Rule::p3 as u32, false, &Opt(&Seq(&[(T::M, x::_r1), (T::O, x::_r1), (T::M, x::_r1)]))))), Alt(&[x::r0, S("."), S("cb")]), Inst(Rule::p2 as u32, false, &Alt(&[Any, R('a', 'b'), S(".")])), Inst(Rule::p3 as u32, false, &Opt(&Seq(&[(T::M, S("c")), (T::O, S("c")), (T::M, x::r0)])))]);
    _r4 "_" = Seq(&[(T::O, Seq(&[(T::N, S("bb")), (T::O, R('c', 'd'))])), (T::M, Opt(&S("ba")))]);
    r5 = Seq(&[(T::N, Opt(&S("."))), (T::M, x::r0)]);
    r6 = Inst(Rule::p2 as u32, false, &Alt(&[Any, Seq(&[(T::O, Seq(&[(T::M, S("c.")), (T::N, R('c', 'd'))])), (T::O, Pos(&Any)), (T::N, Neg(&Any)), (T::N, Seq(&[(T::O, S("ab")), (T::O, S("b"))]))]), S(".")]));
    r7 = R('b', 'd');
    _r8 "_" = Rep(&Inst(Rule::p2 as u32, false, &Alt(&[Any, Alt(&[R('b', 'c'), S("."), x::r0, x::r0]), S(".")])), 1, INF, T::M);
    r9 = Rep(&Alt(&[Seq(&[(T::O, S(".")), (T::N, S("b")), (T::N, S("c")), (T::N, S("cb"))]), Rep(&R('a', 'a'), 1, INF, T::M), Seq(&[(T::N, x::_r4), (T::N, S("b")), (T::M, S("b")), (T::N, S("a"))])]), 1, INF, T::O);
    r10 = Opt(&Inst(Rule::p5 as u32, false, &Rep(&Seq(&[(T::N, S(".")), (T::N, S("c"))]), 1, 2, T::O)));
    r11 = Inst(Rule::p6 as u32, false, &Inst(Rule::p3 as u32, false, &Opt(&Seq(&[(T::M, Seq(&[(T::M, S("aa")), (T::N, Seq(&[(T::N, S("a")), (T::N, S("b"))]))])), (T::O, Seq(&[(T::M, S("aa")), (T::N, Seq(&[(T::N, S("a")), (T::N, S("b"))]))])), (T::M, Seq(&[(T::M, S("c")), (T::N, S("c")), (T::O, S("."))]))]))));
    r12 = Rep(&Inst(Rule::p2 as u32, false, &Alt(&[Any, S("a"), S(".")])), 2, INF, T::N);
    r13 = Alt(&[Alt(&[Alt(&[Seq(&[(T::O, S(".")), (T::N, S("c")), (T::N, S("c")), (T::N, S("bc"))]), Rep(&R('a', 'a'), 1, INF, T::M), Seq(&[(T::N, S(".")), (T::N, S("b")), (T::M, S("c")), (T::N, S("a"))])]), Inst(Rule::p3 as u32, false, &Opt(&Seq(&[(T::M, x::r11), (T::O, x::r11), (T::M, S("."))])))]), Neg(&Rep(&S("b"), 2, INF, T::N)), Seq(&[(T::O, Seq(&[(T::M, S("c.")), (T::N, R('c', 'd'))])), (T::O, Pos(&Seq(&[(T::N, S(".")), (T::N, x::r12), (T::N, S("."))]))), (T::N, Neg(&Seq(&[(T::N, S(".")), (T::N, x::r12), (T::N, S("."))]))), (T::N, Seq(&[(T::O, S("ab")), (T::O, S("b"))]))]), Seq(&[(T::N, Alt(&[x::_r1, x::_r3])), (T::M, Inst(Rule::p5 as u32, false, &Rep(&Seq(&[(T::N, S("cc")), (T::N, S("c"))]), 1, 2, T::O))), (T::N, Inst(Rule::p4 as u32, false, &Pos(&Inst(Rule::p3 as u32, false, &Opt(&Seq(&[(T::M, S("b")), (T::O, S("b")), (T::M, S("b"))])))))), (T::N, S("b"))])]);
    _r14 "_" = Inst(Rule::p3 as u32, false, &Opt(&Seq(&[(T::M, Seq(&[(T::O, S("b")), (T::O, x::_r4)])), (T::O, Seq(&[(T::O, S("b")), (T::O, x::_r4)])), (T::M, Seq(&[(T::N, x::r12), (T::N, x::r11), (T::O, x::r0)]))])));
    r15 = Inst(Rule::p2 as u32, false, &Alt(&[Any, Opt(&S("b")), S(".")]));
    r16 = Seq(&[(T::M, Alt(&[Seq(&[(T::O, S(".")), (T::N, x::_r4), (T::N, S("c")), (T::N, S("c"))]), Rep(&R('a', 'a'), 1, INF, T::M), Seq(&[(T::N, x::r13), (T::N, S("b")), (T::M, x::_r4), (T::N, S("a"))])])), (T::N, Alt(&[x::r10, Any, x::_r3, x::r0]))]);
    r17 = Alt(&[Seq(&[(T::O, S(".")), (T::N, Rep(&S("ba"), 3, 3, T::N)), (T::N, S("c")), (T::N, Seq(&[(T::M, S(".")), (T::N, x::r12)]))]), Rep(&R('a', 'a'), 1, INF, T::M), Seq(&[(T::N, Rep(&R('c', 'c'), 1, 2, T::N)), (T::N, S("b")), (T::M, Rep(&S("ba"), 3, 3, T::N)), (T::N, S("a"))])]);
}
suite! { mod args2 = r##"
~ = " "
^ = "_"
_p0(x0, x1, x2) = _{ ("aa"? - 'a'..'c' - x2 ~ "b"? ~ "a"? ~ x1? - x0 - ('a'..'d')? - x1 ^ "b"? ^ (pest::any)? ~ "." - "b"?){..2} }
p1(x0, x1) = _p0(_p0(x0, "b", "."), _p0("c", "b", "."), "b" | x1)
p2(x0) = "b" - x0 ~ "b"
_p3(x0, x1) = _{ ("b" | "b") | "c" | ('b'..'c')~{2} | p1(x1, x1) | ('c'..'d')* | p1("c", x0) | x0 | "c" | x1 | "a" | x1 | "a"{1..} | ("." | x0) | x1? | x0 | x0? }
p4(x0) = _p3(x0, x0)
p5(x0, x1) = "c" - ("c"? - "a"? - x1? ~ "c" ^ "b."? ^ x0? ^ 'a'..'b' - "."? ^ x1 ^ x0 - x1? ^ x0? ^ x0?) ^ (x0 | x0)
p6(x0) = "." | x0
p7(x0, x1) = "b"{2..} | (x0 - x0) | (x0 | x1)
r0 = "."
r1 = r0?
r2 = p4(".")
_r3 = _{ p1(p6(r0), "b" ~ (pest::any)? ~ "."? ^ "." - "a"? - r0?) }
r4 = p6("a."?)
r5 = "b"
r6 = "b"
r7 = ("cc" ^ "a"){0..1}
r8 = !("b"?)
r9 = 'a'..'b'
r10 = "a"
r11 = ("b"^{0..1})?
_r12 = _{ p2("a" | p2(".") | ("a" | pest::any | r9 | 'a'..'a') | "b" | r8 | r7 | "c" | r10 | ".c"? | r10) }
r13 = p6("c") ^ (r0 | r5)
r14 = p5(r13 | r6, p5("a", "c"))
r15 = (_p3(r14, "cb") ^ "." - p7("..", pest::any) - r13{1..2}) | ("a"{3} ~ ("b" ^ r8)) | _p0(_p0(r9, _r12, "."), "bc"^{1}, r9 | r4 | _r12)
r16 = p5("a", 'c'..'c') ^ _p3(r8, ".") - r13?
r17 = (pest::any - ".") - ("a"? - "."? - ".c"? ^ "a"? ^ "c"? - "cc"? - "c"? - pest::any - r6? - "a"? ~ r0 - r11 - "a" ~ r14? - r9? - (pest::any)? - "a."? ~ "c"? ~ "."? - "a"?)
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S(".");
    r1 = Opt(&x::r0);
    r2 = Inst(Rule::p4 as u32, false, &Alt(&[Alt(&[S("b"), S("b")]), S("c"), Rep(&R('b', 'c'), 2, 2, T::O), Inst(Rule::p1 as u32, false, &Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, Alt(&[S("b"), S(".")])), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N))), (T::N, Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S(".")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::N, Opt(&R('a', 'd'))), (T::N, Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), Rep(&R('c', 'd'), 0, INF, T::N), Inst(Rule::p1 as u32, false, &Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, Alt(&[S("b"), S(".")])), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N))), (T::N, Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::N, Opt(&R('a', 'd'))), (T::N, Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), S("."), S("c"), S("."), S("a"), S("."), Rep(&S("a"), 1, INF, T::N), Alt(&[S("."), S(".")]), Opt(&S(".")), S("."), Opt(&S("."))]));
    _r3 "_" = Inst(Rule::p1 as u32, false, &Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, Alt(&[S("b"), Seq(&[(T::N, S("b")), (T::O, Opt(&Any)), (T::O, Opt(&S("."))), (T::M, S(".")), (T::N, Opt(&S("a"))), (T::N, Opt(&x::r0))])])), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N))), (T::N, Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, Inst(Rule::p6 as u32, false, &Alt(&[S("."), x::r0]))), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::N, Opt(&R('a', 'd'))), (T::N, Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N));
    r4 = Inst(Rule::p6 as u32, false, &Alt(&[S("."), Opt(&S("a."))]));
    r5 = S("b");
    r6 = S("b");
    r7 = Rep(&Seq(&[(T::N, S("cc")), (T::M, S("a"))]), 0, 1, T::N);
    r8 = Neg(&Opt(&S("b")));
    r9 = R('a', 'b');
    r10 = S("a");
    r11 = Opt(&Rep(&S("b"), 0, 1, T::M));
    _r12 "_" = Inst(Rule::p2 as u32, false, &Seq(&[(T::N, S("b")), (T::N, Alt(&[S("a"), Inst(Rule::p2 as u32, false, &Seq(&[(T::N, S("b")), (T::N, S(".")), (T::O, S("b"))])), Alt(&[S("a"), Any, x::r9, R('a', 'a')]), S("b"), x::r8, x::r7, S("c"), x::r10, Opt(&S(".c")), x::r10])), (T::O, S("b"))]));
    r13 = Seq(&[(T::N, Inst(Rule::p6 as u32, false, &Alt(&[S("."), S("c")]))), (T::M, Alt(&[x::r0, x::r5]))]);
    r14 = Inst(Rule::p5 as u32, false, &Seq(&[(T::N, S("c")), (T::N, Seq(&[(T::N, Opt(&S("c"))), (T::N, Opt(&S("a"))), (T::N, Opt(&Inst(Rule::p5 as u32, false, &Seq(&[(T::N, S("c")), (T::N, Seq(&[(T::N, Opt(&S("c"))), (T::N, Opt(&S("a"))), (T::N, Opt(&S("c"))), (T::O, S("c")), (T::M, Opt(&S("b."))), (T::M, Opt(&S("a"))), (T::M, R('a', 'b')), (T::N, Opt(&S("."))), (T::M, S("c")), (T::M, S("a")), (T::N, Opt(&S("c"))), (T::M, Opt(&S("a"))), (T::M, Opt(&S("a")))])), (T::M, Alt(&[S("a"), S("a")]))])))), (T::O, S("c")), (T::M, Opt(&S("b."))), (T::M, Opt(&Alt(&[x::r13, x::r6]))), (T::M, R('a', 'b')), (T::N, Opt(&S("."))), (T::M, Inst(Rule::p5 as u32, false, &Seq(&[(T::N, S("c")), (T::N, Seq(&[(T::N, Opt(&S("c"))), (T::N, Opt(&S("a"))), (T::N, Opt(&S("c"))), (T::O, S("c")), (T::M, Opt(&S("b."))), (T::M, Opt(&S("a"))), (T::M, R('a', 'b')), (T::N, Opt(&S("."))), (T::M, S("c")), (T::M, S("a")), (T::N, Opt(&S("c"))), (T::M, Opt(&S("a"))), (T::M, Opt(&S("a")))])), (T::M, Alt(&[S("a"), S("a")]))]))), (T::M, Alt(&[x::r13, x::r6])), (T::N, Opt(&Inst(Rule::p5 as u32, false, &Seq(&[(T::N, S("c")), (T::N, Seq(&[(T::N, Opt(&S("c"))), (T::N, Opt(&S("a"))), (T::N, Opt(&S("c"))), (T::O, S("c")), (T::M, Opt(&S("b."))), (T::M, Opt(&S("a"))), (T::M, R('a', 'b')), (T::N, Opt(&S("."))), (T::M, S("c")), (T::M, S("a")), (T::N, Opt(&S("c"))), (T::M, Opt(&S("a"))), (T::M, Opt(&S("a")))])), (T::M, Alt(&[S("a"), S("a")]))])))), (T::M, Opt(&Alt(&[x::r13, x::r6]))), (T::M, Opt(&Alt(&[x::r13, x::r6])))])), (T::M, Alt(&[Alt(&[x::r13, x::r6]), Alt(&[x::r13, x::r6])]))]));
    r15 = Alt(&[Seq(&[(T::N, Alt(&[Alt(&[S("b"), S("b")]), S("c"), Rep(&R('b', 'c'), 2, 2, T::O), Inst(Rule::p1 as u32, false, &Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, Alt(&[S("b"), S("cb")])), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N))), (T::N, Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("cb")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::N, Opt(&R('a', 'd'))), (T::N, Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), Rep(&R('c', 'd'), 0, INF, T::N), Inst(Rule::p1 as u32, false, &Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, Alt(&[S("b"), x::r14])), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N))), (T::N, Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::N, Opt(&R('a', 'd'))), (T::N, Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), x::r14, S("c"), S("cb"), S("a"), S("cb"), Rep(&S("a"), 1, INF, T::N), Alt(&[S("."), x::r14]), Opt(&S("cb")), x::r14, Opt(&x::r14)])), (T::M, S(".")), (T::N, Inst(Rule::p7 as u32, false, &Alt(&[Rep(&S("b"), 2, INF, T::N), Seq(&[(T::N, S("..")), (T::N, S(".."))]), Alt(&[S(".."), Any])]))), (T::N, Rep(&x::r13, 1, 2, T::N))]), Seq(&[(T::N, Rep(&S("a"), 3, 3, T::N)), (T::O, Seq(&[(T::N, S("b")), (T::M, x::r8)]))]), Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, Alt(&[x::r9, x::r4, x::_r12])), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&Rep(&S("bc"), 1, 1, T::M))), (T::N, Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&x::_r12)), (T::N, x::r9), (T::N, Opt(&R('a', 'd'))), (T::N, x::_r12), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::N, Opt(&R('a', 'd'))), (T::N, Rep(&S("bc"), 1, 1, T::M)), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)]);
    r16 = Seq(&[(T::N, Inst(Rule::p5 as u32, false, &Seq(&[(T::N, S("c")), (T::N, Seq(&[(T::N, Opt(&S("c"))), (T::N, Opt(&S("a"))), (T::N, Opt(&R('c', 'c'))), (T::O, S("c")), (T::M, Opt(&S("b."))), (T::M, Opt(&S("a"))), (T::M, R('a', 'b')), (T::N, Opt(&S("."))), (T::M, R('c', 'c')), (T::M, S("a")), (T::N, Opt(&R('c', 'c'))), (T::M, Opt(&S("a"))), (T::M, Opt(&S("a")))])), (T::M, Alt(&[S("a"), S("a")]))]))), (T::M, Alt(&[Alt(&[S("b"), S("b")]), S("c"), Rep(&R('b', 'c'), 2, 2, T::O), Inst(Rule::p1 as u32, false, &Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, Alt(&[S("b"), S(".")])), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N))), (T::N, Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S(".")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::N, Opt(&R('a', 'd'))), (T::N, Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), Rep(&R('c', 'd'), 0, INF, T::N), Inst(Rule::p1 as u32, false, &Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, Alt(&[S("b"), x::r8])), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N))), (T::N, Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::N, Opt(&R('a', 'd'))), (T::N, Rep(&Seq(&[(T::M, Opt(&S("aa"))), (T::N, R('a', 'c')), (T::N, S(".")), (T::O, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::N, S("c")), (T::N, Opt(&R('a', 'd'))), (T::N, S("b")), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), (T::M, Opt(&S("b"))), (T::M, Opt(&Any)), (T::O, S(".")), (T::N, Opt(&S("b")))]), 0, 2, T::N)), x::r8, S("c"), S("."), S("a"), S("."), Rep(&S("a"), 1, INF, T::N), Alt(&[S("."), x::r8]), Opt(&S(".")), x::r8, Opt(&x::r8)])), (T::N, Opt(&x::r13))]);
    r17 = Seq(&[(T::N, Seq(&[(T::O, Any), (T::N, S("."))])), (T::N, Seq(&[(T::N, Opt(&S("a"))), (T::N, Opt(&S("."))), (T::N, Opt(&S(".c"))), (T::M, Opt(&S("a"))), (T::M, Opt(&S("c"))), (T::N, Opt(&S("cc"))), (T::N, Opt(&S("c"))), (T::N, Any), (T::N, Opt(&x::r6)), (T::N, Opt(&S("a"))), (T::O, x::r0), (T::N, x::r11), (T::N, S("a")), (T::O, Opt(&x::r14)), (T::N, Opt(&x::r9)), (T::N, Opt(&Any)), (T::N, Opt(&S("a."))), (T::O, Opt(&S("c"))), (T::O, Opt(&S("."))), (T::N, Opt(&S("a")))]))]);
}
suite! { mod args3 = r##"
~ = " "
^ = "_"
_p0(x0) = _{ (x0 - x0) ~ "."? }
p1(x0, x1) = (x0 - 'a'..'c' - x0) | &(x1)
_p2(x0, x1) = _{ ("c" | ('c'..'c')~{3} | x0 | x1 | "a" | x1 | p1(x1, "c") | x0 | x1 | x0) | "c"~{2..} | (x0 - "a") }
p3(x0, x1, x2) = (x0 ~ "b" ^ x0 - x2) - _p0(x1)
_p4(x0, x1) = _{ "a" ^ "b"? ^ "a."? - x0? - x1? - (pest::any)? ^ x0? }
p5(x0, x1) = 'a'..'c' ^ (x0 - x1)
p6(x0, x1) = p1(p3("..", x0, x1), "b" | "b." | "c")
_p7(x0) = _{ p3(x0, "b", x0) - (x0 ^ x0) - ("b" - x0 - x0) }
r0 = "."
r1 = _p2(".", "a")
r2 = "a"?
r3 = "c"
r4 = p3(r3 | "c", "b" | "c" | "c" | "b", "a" ~ "b")
r5 = !(r0{1..2})
r6 = (_p7("b") | !('c'..'d'))?
_r7 = _{ ('a'..'a')? ^ "b"? ^ r2? ~ ('a'..'c')? ~ "b" - "a" ^ "c"? ^ r1 ~ ('b'..'c')? ~ ".."? - (pest::any)? ^ "b"? }
r8 = ("a" ~ "b")~{2} - _p2("b", _r7)? - ("ac"? - "a"? - _p4(r4, r3) - p5(".", _r7))
_r9 = _{ (('c'..'d' - r3 - r3) - _p2(_r7, pest::any) ^ ('a'..'b')? ^ ("b" - r0))^{..2} }
_r10 = _{ r0 ^ r6? ~ "."? - "bc"? ~ "."? - r3 ~ _r9 ^ r1? ~ r8? ^ ('b'..'d')? ^ "c" - r5? }
r11 = _p7(p1(_r7, r3))
r12 = ("a" ~ r2 ^ r3) | (r1? ~ "b"? ^ r2? - "b"? ^ 'a'..'a' - "b"? ^ ".a"? - (pest::any)? - "a"? ^ "c"? - r11? - pest::any - "b"? - "c"? - r11? - "a"?)
r13 = p5('a'..'b', "b"){2..}
r14 = p1("ca"{1..}, ".")
_r15 = _{ p5("b" - r2, r13 - "a" ^ "b") }
r16 = _p7(r6)
r17 = r12
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S(".");
    r1 = Alt(&[Alt(&[S("c"), Rep(&R('c', 'c'), 3, 3, T::O), S("."), S("a"), S("a"), S("a"), Inst(Rule::p1 as u32, false, &Alt(&[Seq(&[(T::M, S("a")), (T::N, R('a', 'c')), (T::N, S("a"))]), Pos(&S("c"))])), S("."), S("a"), S(".")]), Rep(&S("c"), 2, INF, T::O), Seq(&[(T::O, S(".")), (T::N, S("a"))])]);
    r2 = Opt(&S("a"));
    r3 = S("c");
    r4 = Inst(Rule::p3 as u32, false, &Seq(&[(T::M, Seq(&[(T::N, Alt(&[x::r3, S("c")])), (T::O, S("b")), (T::M, Alt(&[x::r3, S("c")])), (T::N, Seq(&[(T::M, S("a")), (T::O, S("b"))]))])), (T::N, Seq(&[(T::M, Seq(&[(T::M, Alt(&[S("b"), S("c"), S("c"), S("b")])), (T::N, Alt(&[S("b"), S("c"), S("c"), S("b")]))])), (T::O, Opt(&S(".")))]))]));
    r5 = Neg(&Rep(&x::r0, 1, 2, T::N));
    r6 = Opt(&Alt(&[Seq(&[(T::N, Inst(Rule::p3 as u32, false, &Seq(&[(T::M, Seq(&[(T::N, S("b")), (T::O, S("b")), (T::M, S("b")), (T::N, S("b"))])), (T::N, Seq(&[(T::M, Seq(&[(T::M, S("b")), (T::N, S("b"))])), (T::O, Opt(&S(".")))]))]))), (T::N, Seq(&[(T::N, S("b")), (T::M, S("b"))])), (T::N, Seq(&[(T::N, S("b")), (T::N, S("b")), (T::N, S("b"))]))]), Neg(&R('c', 'd'))]));
    _r7 "_" = Seq(&[(T::N, Opt(&R('a', 'a'))), (T::M, Opt(&S("b"))), (T::M, Opt(&x::r2)), (T::O, Opt(&R('a', 'c'))), (T::O, S("b")), (T::N, S("a")), (T::M, Opt(&S("c"))), (T::M, x::r1), (T::O, Opt(&R('b', 'c'))), (T::O, Opt(&S(".."))), (T::N, Opt(&Any)), (T::M, Opt(&S("b")))]);
    r8 = Seq(&[(T::N, Rep(&Seq(&[(T::O, S("a")), (T::O, S("b"))]), 2, 2, T::O)), (T::N, Opt(&Alt(&[Alt(&[S("c"), Rep(&R('c', 'c'), 3, 3, T::O), S("b"), x::_r7, S("a"), x::_r7, Inst(Rule::p1 as u32, false, &Alt(&[Seq(&[(T::M, x::_r7), (T::N, R('a', 'c')), (T::N, x::_r7)]), Pos(&S("c"))])), S("b"), x::_r7, S("b")]), Rep(&S("c"), 2, INF, T::O), Seq(&[(T::O, S("b")), (T::N, S("a"))])]))), (T::N, Seq(&[(T::O, Opt(&S("ac"))), (T::N, Opt(&S("a"))), (T::N, Seq(&[(T::M, S("a")), (T::M, Opt(&S("b"))), (T::M, Opt(&S("a."))), (T::N, Opt(&x::r4)), (T::N, Opt(&x::r3)), (T::N, Opt(&Any)), (T::M, Opt(&x::r4))])), (T::N, Inst(Rule::p5 as u32, false, &Seq(&[(T::N, R('a', 'c')), (T::M, Seq(&[(T::N, S(".")), (T::N, x::_r7)]))])))]))]);
    _r9 "_" = Rep(&Seq(&[(T::M, Seq(&[(T::N, R('c', 'd')), (T::N, x::r3), (T::N, x::r3)])), (T::N, Alt(&[Alt(&[S("c"), Rep(&R('c', 'c'), 3, 3, T::O), x::_r7, Any, S("a"), Any, Inst(Rule::p1 as u32, false, &Alt(&[Seq(&[(T::M, Any), (T::N, R('a', 'c')), (T::N, Any)]), Pos(&S("c"))])), x::_r7, Any, x::_r7]), Rep(&S("c"), 2, INF, T::O), Seq(&[(T::O, x::_r7), (T::N, S("a"))])])), (T::M, Opt(&R('a', 'b'))), (T::M, Seq(&[(T::N, S("b")), (T::N, x::r0)]))]), 0, 2, T::M);
    _r10 "_" = Seq(&[(T::N, x::r0), (T::M, Opt(&x::r6)), (T::O, Opt(&S("."))), (T::N, Opt(&S("bc"))), (T::O, Opt(&S("."))), (T::N, x::r3), (T::O, x::_r9), (T::M, Opt(&x::r1)), (T::O, Opt(&x::r8)), (T::M, Opt(&R('b', 'd'))), (T::M, S("c")), (T::N, Opt(&x::r5))]);
    r11 = Seq(&[(T::N, Inst(Rule::p3 as u32, false, &Seq(&[(T::M, Seq(&[(T::N, Inst(Rule::p1 as u32, false, &Alt(&[Seq(&[(T::M, x::_r7), (T::N, R('a', 'c')), (T::N, x::_r7)]), Pos(&x::r3)]))), (T::O, S("b")), (T::M, Inst(Rule::p1 as u32, false, &Alt(&[Seq(&[(T::M, x::_r7), (T::N, R('a', 'c')), (T::N, x::_r7)]), Pos(&x::r3)]))), (T::N, Inst(Rule::p1 as u32, false, &Alt(&[Seq(&[(T::M, x::_r7), (T::N, R('a', 'c')), (T::N, x::_r7)]), Pos(&x::r3)])))])), (T::N, Seq(&[(T::M, Seq(&[(T::M, S("b")), (T::N, S("b"))])), (T::O, Opt(&S(".")))]))]))), (T::N, Seq(&[(T::N, Inst(Rule::p1 as u32, false, &Alt(&[Seq(&[(T::M, x::_r7), (T::N, R('a', 'c')), (T::N, x::_r7)]), Pos(&x::r3)]))), (T::M, Inst(Rule::p1 as u32, false, &Alt(&[Seq(&[(T::M, x::_r7), (T::N, R('a', 'c')), (T::N, x::_r7)]), Pos(&x::r3)])))])), (T::N, Seq(&[(T::N, S("b")), (T::N, Inst(Rule::p1 as u32, false, &Alt(&[Seq(&[(T::M, x::_r7), (T::N, R('a', 'c')), (T::N, x::_r7)]), Pos(&x::r3)]))), (T::N, Inst(Rule::p1 as u32, false, &Alt(&[Seq(&[(T::M, x::_r7), (T::N, R('a', 'c')), (T::N, x::_r7)]), Pos(&x::r3)])))]))]);
    r12 = Alt(&[Seq(&[(T::N, S("a")), (T::O, x::r2), (T::M, x::r3)]), Seq(&[(T::N, Opt(&x::r1)), (T::O, Opt(&S("b"))), (T::M, Opt(&x::r2)), (T::N, Opt(&S("b"))), (T::M, R('a', 'a')), (T::N, Opt(&S("b"))), (T::M, Opt(&S(".a"))), (T::N, Opt(&Any)), (T::N, Opt(&S("a"))), (T::M, Opt(&S("c"))), (T::N, Opt(&x::r11)), (T::N, Any), (T::N, Opt(&S("b"))), (T::N, Opt(&S("c"))), (T::N, Opt(&x::r11)), (T::N, Opt(&S("a")))])]);
    r13 = Rep(&Inst(Rule::p5 as u32, false, &Seq(&[(T::N, R('a', 'c')), (T::M, Seq(&[(T::N, R('a', 'b')), (T::N, S("b"))]))])), 2, INF, T::N);
    r14 = Inst(Rule::p1 as u32, false, &Alt(&[Seq(&[(T::M, Rep(&S("ca"), 1, INF, T::N)), (T::N, R('a', 'c')), (T::N, Rep(&S("ca"), 1, INF, T::N))]), Pos(&S("."))]));
    _r15 "_" = Inst(Rule::p5 as u32, false, &Seq(&[(T::N, R('a', 'c')), (T::M, Seq(&[(T::N, Seq(&[(T::N, S("b")), (T::N, x::r2)])), (T::N, Seq(&[(T::M, x::r13), (T::N, S("a")), (T::M, S("b"))]))]))]));
    r16 = Seq(&[(T::N, Inst(Rule::p3 as u32, false, &Seq(&[(T::M, Seq(&[(T::N, x::r6), (T::O, S("b")), (T::M, x::r6), (T::N, x::r6)])), (T::N, Seq(&[(T::M, Seq(&[(T::M, S("b")), (T::N, S("b"))])), (T::O, Opt(&S(".")))]))]))), (T::N, Seq(&[(T::N, x::r6), (T::M, x::r6)])), (T::N, Seq(&[(T::N, S("b")), (T::N, x::r6), (T::N, x::r6)]))]);
    r17 = x::r12;
}
suite! { mod args4 = r##"
~ = " "
^ = "_"
p0(x0, x1) = "c"{1} - (("c" | x1) | (pest::any - ".." - "c") | ".b" | "b" | x1 | x0) ~ ("." | x1 | x0 | "c") - "b"*
_p1(x0) = _{ p0(p0("a", x0), x0?) }
p2(x0) = ("b" | 'a'..'b') ^ ("a."? - (pest::any)? - x0? ~ "c"? ~ x0? - x0? - x0? - x0? - ".c"? ^ x0? - "ac" - x0? ~ (pest::any)? - "a" ^ "c" ~ "b"?)
p3(x0) = p0('a'..'d' - "b" - x0 - 'a'..'d', (pest::any)~{0..1})
p4(x0, x1, x2) = ("c" | x1 | x1) ~ (x0 ~ x2 - x0) - (x1 | ".")
p5(x0, x1, x2) = (x0 ^ x0) | p2(x1) | p0('c'..'c', x2)
p6(x0, x1) = p5("a" ^ 'b'..'c', 'a'..'b' | "b" | x0 | ".", p0("c", x1))
p7(x0) = x0 ~ "a"
r0 = "b"
r1 = r0 - r0
r2 = p0(".", r1)
r3 = p6(r2, "a"+)
r4 = p7(_p1("b")) - p2(p0(r0, "b")) - (r1^{1..3} | p4(".a", r2, "a"))
_r5 = _{ ("." ^ r3 ^ "c")? }
r6 = p3("b" ^ "." - "c." - 'a'..'d') - ("a" | 'a'..'b'){2..} - _p1("c")
r7 = (r0 | ".c") - ("c" ~ "b" - "a")
r8 = "c"
r9 = (r4 | r8 | r3 | r7) | ("." ^ r8) | (pest::any)?
r10 = p7(".") - (r0 | ".") ~ ("c" - r4 ^ r4)
r11 = (r0? | ("." - r10) | !(r9) | p0("..", 'b'..'c')) ^ ((r3 - "c") ^ (r10 | pest::any) - "c"?) - p2(p7('a'..'b'))
r12 = r3? ~ "c"? - r8? ^ r11? ~ "b"? ~ r6? ~ r10?
r13 = (("a" - "c" - "b" ^ "c")?)?
r14 = (r12 - r2)?
_r15 = _{ p2(r2?) }
r16 = _p1(".b"? | r14 | "b"? | "b" | p0(r2, _r5) | r6 | pest::any | "a" | !(".") | ("ca"? ^ r9? ~ ('b'..'c')? - "ab"? - r10?) | (".b" - ".") | (pest::any ^ r2 - "c") | r9 | ("a" ~ r6) | "b"* | "c."{1} | ".a" | "." | (r0 - _r5 ~ "a") | "c")
r17 = &("c"{1..2})
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S("b");
    r1 = Seq(&[(T::M, x::r0), (T::N, x::r0)]);
    r2 = Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), x::r1]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), x::r1, S(".")])), (T::O, Alt(&[S("."), x::r1, S("."), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))]));
    r3 = Inst(Rule::p6 as u32, false, &Inst(Rule::p5 as u32, false, &Alt(&[Seq(&[(T::N, Seq(&[(T::N, S("a")), (T::M, R('b', 'c'))])), (T::M, Seq(&[(T::N, S("a")), (T::M, R('b', 'c'))]))]), Inst(Rule::p2 as u32, false, &Seq(&[(T::N, Alt(&[S("b"), R('a', 'b')])), (T::M, Seq(&[(T::M, Opt(&S("a."))), (T::N, Opt(&Any)), (T::N, Opt(&Alt(&[R('a', 'b'), S("b"), x::r2, S(".")]))), (T::O, Opt(&S("c"))), (T::O, Opt(&Alt(&[R('a', 'b'), S("b"), x::r2, S(".")]))), (T::N, Opt(&Alt(&[R('a', 'b'), S("b"), x::r2, S(".")]))), (T::N, Opt(&Alt(&[R('a', 'b'), S("b"), x::r2, S(".")]))), (T::N, Opt(&Alt(&[R('a', 'b'), S("b"), x::r2, S(".")]))), (T::N, Opt(&S(".c"))), (T::M, Opt(&Alt(&[R('a', 'b'), S("b"), x::r2, S(".")]))), (T::N, S("ac")), (T::N, Opt(&Alt(&[R('a', 'b'), S("b"), x::r2, S(".")]))), (T::O, Opt(&Any)), (T::N, S("a")), (T::M, S("c")), (T::O, Opt(&S("b")))]))])), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), Rep(&S("a"), 1, INF, T::N)]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), Rep(&S("a"), 1, INF, T::N), S("c")])), (T::O, Alt(&[S("."), Rep(&S("a"), 1, INF, T::N), S("c"), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))]))]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), Rep(&S("a"), 1, INF, T::N)]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), Rep(&S("a"), 1, INF, T::N), S("c")])), (T::O, Alt(&[S("."), Rep(&S("a"), 1, INF, T::N), S("c"), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])), R('c', 'c')])), (T::O, Alt(&[S("."), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), Rep(&S("a"), 1, INF, T::N)]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), Rep(&S("a"), 1, INF, T::N), S("c")])), (T::O, Alt(&[S("."), Rep(&S("a"), 1, INF, T::N), S("c"), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])), R('c', 'c'), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))]))])));
    r4 = Seq(&[(T::M, Inst(Rule::p7 as u32, false, &Seq(&[(T::N, Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), Opt(&S("b"))]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), Opt(&S("b")), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), S("b")]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), S("b"), S("a")])), (T::O, Alt(&[S("."), S("b"), S("a"), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))]))])), (T::O, Alt(&[S("."), Opt(&S("b")), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), S("b")]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), S("b"), S("a")])), (T::O, Alt(&[S("."), S("b"), S("a"), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))]))), (T::O, S("a"))]))), (T::N, Inst(Rule::p2 as u32, false, &Seq(&[(T::N, Alt(&[S("b"), R('a', 'b')])), (T::M, Seq(&[(T::M, Opt(&S("a."))), (T::N, Opt(&Any)), (T::N, Opt(&Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), S("b")]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), S("b"), x::r0])), (T::O, Alt(&[S("."), S("b"), x::r0, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])))), (T::O, Opt(&S("c"))), (T::O, Opt(&Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), S("b")]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), S("b"), x::r0])), (T::O, Alt(&[S("."), S("b"), x::r0, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])))), (T::N, Opt(&Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), S("b")]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), S("b"), x::r0])), (T::O, Alt(&[S("."), S("b"), x::r0, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])))), (T::N, Opt(&Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), S("b")]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), S("b"), x::r0])), (T::O, Alt(&[S("."), S("b"), x::r0, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])))), (T::N, Opt(&Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), S("b")]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), S("b"), x::r0])), (T::O, Alt(&[S("."), S("b"), x::r0, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])))), (T::N, Opt(&S(".c"))), (T::M, Opt(&Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), S("b")]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), S("b"), x::r0])), (T::O, Alt(&[S("."), S("b"), x::r0, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])))), (T::N, S("ac")), (T::N, Opt(&Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), S("b")]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), S("b"), x::r0])), (T::O, Alt(&[S("."), S("b"), x::r0, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])))), (T::O, Opt(&Any)), (T::N, S("a")), (T::M, S("c")), (T::O, Opt(&S("b")))]))]))), (T::N, Alt(&[Rep(&x::r1, 1, 3, T::M), Inst(Rule::p4 as u32, false, &Seq(&[(T::M, Alt(&[S("c"), x::r2, x::r2])), (T::O, Seq(&[(T::M, S(".a")), (T::O, S("a")), (T::N, S(".a"))])), (T::N, Alt(&[x::r2, S(".")]))]))]))]);
    _r5 "_" = Opt(&Seq(&[(T::N, S(".")), (T::M, x::r3), (T::M, S("c"))]));
    r6 = Seq(&[(T::N, Inst(Rule::p3 as u32, false, &Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), Rep(&Any, 0, 1, T::O)]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), Rep(&Any, 0, 1, T::O), Seq(&[(T::M, R('a', 'd')), (T::N, S("b")), (T::N, Seq(&[(T::M, S("b")), (T::M, S(".")), (T::N, S("c.")), (T::N, R('a', 'd'))])), (T::N, R('a', 'd'))])])), (T::O, Alt(&[S("."), Rep(&Any, 0, 1, T::O), Seq(&[(T::M, R('a', 'd')), (T::N, S("b")), (T::N, Seq(&[(T::M, S("b")), (T::M, S(".")), (T::N, S("c.")), (T::N, R('a', 'd'))])), (T::N, R('a', 'd'))]), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])))), (T::N, Rep(&Alt(&[S("a"), R('a', 'b')]), 2, INF, T::N)), (T::N, Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), Opt(&S("c"))]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), Opt(&S("c")), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), S("c")]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), S("c"), S("a")])), (T::O, Alt(&[S("."), S("c"), S("a"), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))]))])), (T::O, Alt(&[S("."), Opt(&S("c")), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), S("c")]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), S("c"), S("a")])), (T::O, Alt(&[S("."), S("c"), S("a"), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])))]);
    r7 = Seq(&[(T::N, Alt(&[x::r0, S(".c")])), (T::N, Seq(&[(T::N, S("c")), (T::O, S("b")), (T::N, S("a"))]))]);
    r8 = S("c");
    r9 = Alt(&[Alt(&[x::r4, x::r8, x::r3, x::r7]), Seq(&[(T::N, S(".")), (T::M, x::r8)]), Opt(&Any)]);
    r10 = Seq(&[(T::N, Inst(Rule::p7 as u32, false, &Seq(&[(T::N, S(".")), (T::O, S("a"))]))), (T::N, Alt(&[x::r0, S(".")])), (T::O, Seq(&[(T::M, S("c")), (T::N, x::r4), (T::M, x::r4)]))]);
    r11 = Seq(&[(T::N, Alt(&[Opt(&x::r0), Seq(&[(T::N, S(".")), (T::N, x::r10)]), Neg(&x::r9), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), R('b', 'c')]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), R('b', 'c'), S("..")])), (T::O, Alt(&[S("."), R('b', 'c'), S(".."), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))]))])), (T::M, Seq(&[(T::N, Seq(&[(T::N, x::r3), (T::N, S("c"))])), (T::M, Alt(&[x::r10, Any])), (T::N, Opt(&S("c")))])), (T::N, Inst(Rule::p2 as u32, false, &Seq(&[(T::N, Alt(&[S("b"), R('a', 'b')])), (T::M, Seq(&[(T::M, Opt(&S("a."))), (T::N, Opt(&Any)), (T::N, Opt(&Inst(Rule::p7 as u32, false, &Seq(&[(T::N, R('a', 'b')), (T::O, S("a"))])))), (T::O, Opt(&S("c"))), (T::O, Opt(&Inst(Rule::p7 as u32, false, &Seq(&[(T::N, R('a', 'b')), (T::O, S("a"))])))), (T::N, Opt(&Inst(Rule::p7 as u32, false, &Seq(&[(T::N, R('a', 'b')), (T::O, S("a"))])))), (T::N, Opt(&Inst(Rule::p7 as u32, false, &Seq(&[(T::N, R('a', 'b')), (T::O, S("a"))])))), (T::N, Opt(&Inst(Rule::p7 as u32, false, &Seq(&[(T::N, R('a', 'b')), (T::O, S("a"))])))), (T::N, Opt(&S(".c"))), (T::M, Opt(&Inst(Rule::p7 as u32, false, &Seq(&[(T::N, R('a', 'b')), (T::O, S("a"))])))), (T::N, S("ac")), (T::N, Opt(&Inst(Rule::p7 as u32, false, &Seq(&[(T::N, R('a', 'b')), (T::O, S("a"))])))), (T::O, Opt(&Any)), (T::N, S("a")), (T::M, S("c")), (T::O, Opt(&S("b")))]))])))]);
    r12 = Seq(&[(T::N, Opt(&x::r3)), (T::O, Opt(&S("c"))), (T::N, Opt(&x::r8)), (T::M, Opt(&x::r11)), (T::O, Opt(&S("b"))), (T::O, Opt(&x::r6)), (T::O, Opt(&x::r10))]);
    r13 = Opt(&Opt(&Seq(&[(T::N, S("a")), (T::N, S("c")), (T::N, S("b")), (T::M, S("c"))])));
    r14 = Opt(&Seq(&[(T::O, x::r12), (T::N, x::r2)]));
    _r15 "_" = Inst(Rule::p2 as u32, false, &Seq(&[(T::N, Alt(&[S("b"), R('a', 'b')])), (T::M, Seq(&[(T::M, Opt(&S("a."))), (T::N, Opt(&Any)), (T::N, Opt(&Opt(&x::r2))), (T::O, Opt(&S("c"))), (T::O, Opt(&Opt(&x::r2))), (T::N, Opt(&Opt(&x::r2))), (T::N, Opt(&Opt(&x::r2))), (T::N, Opt(&Opt(&x::r2))), (T::N, Opt(&S(".c"))), (T::M, Opt(&Opt(&x::r2))), (T::N, S("ac")), (T::N, Opt(&Opt(&x::r2))), (T::O, Opt(&Any)), (T::N, S("a")), (T::M, S("c")), (T::O, Opt(&S("b")))]))]));
    r16 = Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), Opt(&Alt(&[Opt(&S(".b")), x::r14, Opt(&S("b")), S("b"), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), x::_r5]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), x::_r5, x::r2])), (T::O, Alt(&[S("."), x::_r5, x::r2, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])), x::r6, Any, S("a"), Neg(&S(".")), Seq(&[(T::N, Opt(&S("ca"))), (T::M, Opt(&x::r9)), (T::O, Opt(&R('b', 'c'))), (T::N, Opt(&S("ab"))), (T::N, Opt(&x::r10))]), Seq(&[(T::N, S(".b")), (T::N, S("."))]), Seq(&[(T::O, Any), (T::M, x::r2), (T::N, S("c"))]), x::r9, Seq(&[(T::N, S("a")), (T::O, x::r6)]), Rep(&S("b"), 0, INF, T::N), Rep(&S("c."), 1, 1, T::N), S(".a"), S("."), Seq(&[(T::O, x::r0), (T::N, x::_r5), (T::O, S("a"))]), S("c")]))]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), Opt(&Alt(&[Opt(&S(".b")), x::r14, Opt(&S("b")), S("b"), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), x::_r5]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), x::_r5, x::r2])), (T::O, Alt(&[S("."), x::_r5, x::r2, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])), x::r6, Any, S("a"), Neg(&S(".")), Seq(&[(T::N, Opt(&S("ca"))), (T::M, Opt(&x::r9)), (T::O, Opt(&R('b', 'c'))), (T::N, Opt(&S("ab"))), (T::N, Opt(&x::r10))]), Seq(&[(T::N, S(".b")), (T::N, S("."))]), Seq(&[(T::O, Any), (T::M, x::r2), (T::N, S("c"))]), x::r9, Seq(&[(T::N, S("a")), (T::O, x::r6)]), Rep(&S("b"), 0, INF, T::N), Rep(&S("c."), 1, 1, T::N), S(".a"), S("."), Seq(&[(T::O, x::r0), (T::N, x::_r5), (T::O, S("a"))]), S("c")])), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), Alt(&[Opt(&S(".b")), x::r14, Opt(&S("b")), S("b"), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), x::_r5]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), x::_r5, x::r2])), (T::O, Alt(&[S("."), x::_r5, x::r2, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])), x::r6, Any, S("a"), Neg(&S(".")), Seq(&[(T::N, Opt(&S("ca"))), (T::M, Opt(&x::r9)), (T::O, Opt(&R('b', 'c'))), (T::N, Opt(&S("ab"))), (T::N, Opt(&x::r10))]), Seq(&[(T::N, S(".b")), (T::N, S("."))]), Seq(&[(T::O, Any), (T::M, x::r2), (T::N, S("c"))]), x::r9, Seq(&[(T::N, S("a")), (T::O, x::r6)]), Rep(&S("b"), 0, INF, T::N), Rep(&S("c."), 1, 1, T::N), S(".a"), S("."), Seq(&[(T::O, x::r0), (T::N, x::_r5), (T::O, S("a"))]), S("c")])]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), Alt(&[Opt(&S(".b")), x::r14, Opt(&S("b")), S("b"), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), x::_r5]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), x::_r5, x::r2])), (T::O, Alt(&[S("."), x::_r5, x::r2, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])), x::r6, Any, S("a"), Neg(&S(".")), Seq(&[(T::N, Opt(&S("ca"))), (T::M, Opt(&x::r9)), (T::O, Opt(&R('b', 'c'))), (T::N, Opt(&S("ab"))), (T::N, Opt(&x::r10))]), Seq(&[(T::N, S(".b")), (T::N, S("."))]), Seq(&[(T::O, Any), (T::M, x::r2), (T::N, S("c"))]), x::r9, Seq(&[(T::N, S("a")), (T::O, x::r6)]), Rep(&S("b"), 0, INF, T::N), Rep(&S("c."), 1, 1, T::N), S(".a"), S("."), Seq(&[(T::O, x::r0), (T::N, x::_r5), (T::O, S("a"))]), S("c")]), S("a")])), (T::O, Alt(&[S("."), Alt(&[Opt(&S(".b")), x::r14, Opt(&S("b")), S("b"), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), x::_r5]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), x::_r5, x::r2])), (T::O, Alt(&[S("."), x::_r5, x::r2, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])), x::r6, Any, S("a"), Neg(&S(".")), Seq(&[(T::N, Opt(&S("ca"))), (T::M, Opt(&x::r9)), (T::O, Opt(&R('b', 'c'))), (T::N, Opt(&S("ab"))), (T::N, Opt(&x::r10))]), Seq(&[(T::N, S(".b")), (T::N, S("."))]), Seq(&[(T::O, Any), (T::M, x::r2), (T::N, S("c"))]), x::r9, Seq(&[(T::N, S("a")), (T::O, x::r6)]), Rep(&S("b"), 0, INF, T::N), Rep(&S("c."), 1, 1, T::N), S(".a"), S("."), Seq(&[(T::O, x::r0), (T::N, x::_r5), (T::O, S("a"))]), S("c")]), S("a"), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))]))])), (T::O, Alt(&[S("."), Opt(&Alt(&[Opt(&S(".b")), x::r14, Opt(&S("b")), S("b"), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), x::_r5]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), x::_r5, x::r2])), (T::O, Alt(&[S("."), x::_r5, x::r2, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])), x::r6, Any, S("a"), Neg(&S(".")), Seq(&[(T::N, Opt(&S("ca"))), (T::M, Opt(&x::r9)), (T::O, Opt(&R('b', 'c'))), (T::N, Opt(&S("ab"))), (T::N, Opt(&x::r10))]), Seq(&[(T::N, S(".b")), (T::N, S("."))]), Seq(&[(T::O, Any), (T::M, x::r2), (T::N, S("c"))]), x::r9, Seq(&[(T::N, S("a")), (T::O, x::r6)]), Rep(&S("b"), 0, INF, T::N), Rep(&S("c."), 1, 1, T::N), S(".a"), S("."), Seq(&[(T::O, x::r0), (T::N, x::_r5), (T::O, S("a"))]), S("c")])), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), Alt(&[Opt(&S(".b")), x::r14, Opt(&S("b")), S("b"), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), x::_r5]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), x::_r5, x::r2])), (T::O, Alt(&[S("."), x::_r5, x::r2, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])), x::r6, Any, S("a"), Neg(&S(".")), Seq(&[(T::N, Opt(&S("ca"))), (T::M, Opt(&x::r9)), (T::O, Opt(&R('b', 'c'))), (T::N, Opt(&S("ab"))), (T::N, Opt(&x::r10))]), Seq(&[(T::N, S(".b")), (T::N, S("."))]), Seq(&[(T::O, Any), (T::M, x::r2), (T::N, S("c"))]), x::r9, Seq(&[(T::N, S("a")), (T::O, x::r6)]), Rep(&S("b"), 0, INF, T::N), Rep(&S("c."), 1, 1, T::N), S(".a"), S("."), Seq(&[(T::O, x::r0), (T::N, x::_r5), (T::O, S("a"))]), S("c")])]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), Alt(&[Opt(&S(".b")), x::r14, Opt(&S("b")), S("b"), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), x::_r5]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), x::_r5, x::r2])), (T::O, Alt(&[S("."), x::_r5, x::r2, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])), x::r6, Any, S("a"), Neg(&S(".")), Seq(&[(T::N, Opt(&S("ca"))), (T::M, Opt(&x::r9)), (T::O, Opt(&R('b', 'c'))), (T::N, Opt(&S("ab"))), (T::N, Opt(&x::r10))]), Seq(&[(T::N, S(".b")), (T::N, S("."))]), Seq(&[(T::O, Any), (T::M, x::r2), (T::N, S("c"))]), x::r9, Seq(&[(T::N, S("a")), (T::O, x::r6)]), Rep(&S("b"), 0, INF, T::N), Rep(&S("c."), 1, 1, T::N), S(".a"), S("."), Seq(&[(T::O, x::r0), (T::N, x::_r5), (T::O, S("a"))]), S("c")]), S("a")])), (T::O, Alt(&[S("."), Alt(&[Opt(&S(".b")), x::r14, Opt(&S("b")), S("b"), Inst(Rule::p0 as u32, false, &Seq(&[(T::M, Rep(&S("c"), 1, 1, T::N)), (T::N, Alt(&[Alt(&[S("c"), x::_r5]), Seq(&[(T::N, Any), (T::N, S("..")), (T::N, S("c"))]), S(".b"), S("b"), x::_r5, x::r2])), (T::O, Alt(&[S("."), x::_r5, x::r2, S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])), x::r6, Any, S("a"), Neg(&S(".")), Seq(&[(T::N, Opt(&S("ca"))), (T::M, Opt(&x::r9)), (T::O, Opt(&R('b', 'c'))), (T::N, Opt(&S("ab"))), (T::N, Opt(&x::r10))]), Seq(&[(T::N, S(".b")), (T::N, S("."))]), Seq(&[(T::O, Any), (T::M, x::r2), (T::N, S("c"))]), x::r9, Seq(&[(T::N, S("a")), (T::O, x::r6)]), Rep(&S("b"), 0, INF, T::N), Rep(&S("c."), 1, 1, T::N), S(".a"), S("."), Seq(&[(T::O, x::r0), (T::N, x::_r5), (T::O, S("a"))]), S("c")]), S("a"), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))])), S("c")])), (T::N, Rep(&S("b"), 0, INF, T::N))]));
    r17 = Pos(&Rep(&S("c"), 1, 2, T::N));
}
fn any_args() -> usize { choose(90) }
#[allow(unused)] fn run_args(k: usize, s: &'static str) { match k / 18 { 0 => { args0::run(k % 18, s); } 1 => { args1::run(k % 18, s); } 2 => { args2::run(k % 18, s); } 3 => { args3::run(k % 18, s); } 4 => { args4::run(k % 18, s); } _ => {} } }
#[allow(unused)] fn visit_args<V: Visit>(k: usize, v: &mut V) { match k / 18 { 0 => args0::visit(k % 18, v), 1 => args1::visit(k % 18, v), 2 => args2::visit(k % 18, v), 3 => args3::visit(k % 18, v), 4 => args4::visit(k % 18, v), _ => {} } }
