// Written by bin/mkgen.py.
suite! { mod choice0 = r##"
~ = " "
^ = "_"
r0 = "."
r1 = i"a1" - r0 - r0
_r2 = _{ "b"? }
r3 = (r0? | ('a'..'a')? | ("a" | r0)) - (i"a1"?)?
r4 = (!(i"a") | (pest::any)? | (r3 - "a1" - r0)) | (r1?)? | ((i"a1"? - r0? - 'c'..'d' - i"ab" - "b"? - "a"?) | i"bb"{0..1} | (i"ab" | "1" | ""))
_r5 = _{ ((r0 | r4 | ".a") - (r4 - pest::any))? }
_r6 = _{ 'b'..'b' }
r7 = _r5
r8 = (('a'..'b')? - (pest::any | "a") - (i"b" - _r6 - "a") - ("b" | "1")) - ("." - "1b" - "a")? - ((r4 | "a") | "b" | !("b") | "1"? | ".b" | "bb" | "b1" | ("b" - 'a'..'c') | &(".") | i"b" | i"ab" | ("a1" - 'a'..'d' - "b.") | i"ab" | i"a" | pest::any | ('b'..'c' | "b" | _r5))
r9 = ('b'..'d' | (i"a1" - "1a" - _r2)) - ('a'..'c' | ('a'..'c' | i"b" | "." | 'b'..'c') | "b." | i"b" | r1? | (i"b1" - r7 - _r2) | r4 | "" | r3 | r3)
r10 = (("a" - i"b") - (r7 | r8) - "1a"{1}) - &(i"bb") - ("aa"? - (pest::any | "aa") - r7? - _r5?)
r11 = (("11" | "b1" | r8)?)?
r12 = (r3 | 'a'..'c') - "11"? - (i"b1" - r11 - i"ab")
r13 = ("a" | 'c'..'d') | ("a" | ".." | r4)
r14 = (r9 | "aa")?
r15 = ("1" | "b" | r11) - 'c'..'c' - (r13 | r7)
r16 = r0? - i"a" - _r6? - 'a'..'c' - ('c'..'c')? - r3 - i"b" - r10? - "ba" - ('a'..'b')? - r8? - _r5 - (pest::any)?
r17 = (_r6 | i"ab") - _r5
r18 = (('a'..'a' - 'b'..'b') | ("11" | "a") | ('a'..'b' - i"b")) | ((r7 | "a" | 'a'..'b' | i"b1") | (i"a" - "1." - i"a")) | ("b" | 'a'..'a'){1..2}
r19 = (("." | _r2) | (_r5 - "1") | (i"bb" - i"b") | ('c'..'c' | 'a'..'c')) | ((i"bb" - "11" - 'a'..'c') | ("." - 'a'..'c')) | (('b'..'c' | "1") - ("b" | r8 | pest::any | 'a'..'c') - ("." - "1b" - "b") - (_r2 - "."))
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S(".");
    r1 = Seq(&[(T::N, I("a1")), (T::N, x::r0), (T::N, x::r0)]);
    _r2 "_" = Opt(&S("b"));
    r3 = Seq(&[(T::N, Alt(&[Opt(&x::r0), Opt(&R('a', 'a')), Alt(&[S("a"), x::r0])])), (T::N, Opt(&Opt(&I("a1"))))]);
    r4 = Alt(&[Alt(&[Neg(&I("a")), Opt(&Any), Seq(&[(T::N, x::r3), (T::N, S("a1")), (T::N, x::r0)])]), Opt(&Opt(&x::r1)), Alt(&[Seq(&[(T::N, Opt(&I("a1"))), (T::N, Opt(&x::r0)), (T::N, R('c', 'd')), (T::N, I("ab")), (T::N, Opt(&S("b"))), (T::N, Opt(&S("a")))]), Rep(&I("bb"), 0, 1, T::N), Alt(&[I("ab"), S("1"), S("")])])]);
    _r5 "_" = Opt(&Seq(&[(T::N, Alt(&[x::r0, x::r4, S(".a")])), (T::N, Seq(&[(T::N, x::r4), (T::N, Any)]))]));
    _r6 "_" = R('b', 'b');
    r7 = x::_r5;
    r8 = Seq(&[(T::N, Seq(&[(T::N, Opt(&R('a', 'b'))), (T::N, Alt(&[Any, S("a")])), (T::N, Seq(&[(T::N, I("b")), (T::N, x::_r6), (T::N, S("a"))])), (T::N, Alt(&[S("b"), S("1")]))])), (T::N, Opt(&Seq(&[(T::N, S(".")), (T::N, S("1b")), (T::N, S("a"))]))), (T::N, Alt(&[Alt(&[x::r4, S("a")]), S("b"), Neg(&S("b")), Opt(&S("1")), S(".b"), S("bb"), S("b1"), Seq(&[(T::N, S("b")), (T::N, R('a', 'c'))]), Pos(&S(".")), I("b"), I("ab"), Seq(&[(T::N, S("a1")), (T::N, R('a', 'd')), (T::N, S("b."))]), I("ab"), I("a"), Any, Alt(&[R('b', 'c'), S("b"), x::_r5])]))]);
    r9 = Seq(&[(T::N, Alt(&[R('b', 'd'), Seq(&[(T::N, I("a1")), (T::N, S("1a")), (T::N, x::_r2)])])), (T::N, Alt(&[R('a', 'c'), Alt(&[R('a', 'c'), I("b"), S("."), R('b', 'c')]), S("b."), I("b"), Opt(&x::r1), Seq(&[(T::N, I("b1")), (T::N, x::r7), (T::N, x::_r2)]), x::r4, S(""), x::r3, x::r3]))]);
    r10 = Seq(&[(T::N, Seq(&[(T::N, Seq(&[(T::N, S("a")), (T::N, I("b"))])), (T::N, Alt(&[x::r7, x::r8])), (T::N, Rep(&S("1a"), 1, 1, T::N))])), (T::N, Pos(&I("bb"))), (T::N, Seq(&[(T::N, Opt(&S("aa"))), (T::N, Alt(&[Any, S("aa")])), (T::N, Opt(&x::r7)), (T::N, Opt(&x::_r5))]))]);
    r11 = Opt(&Opt(&Alt(&[S("11"), S("b1"), x::r8])));
    r12 = Seq(&[(T::N, Alt(&[x::r3, R('a', 'c')])), (T::N, Opt(&S("11"))), (T::N, Seq(&[(T::N, I("b1")), (T::N, x::r11), (T::N, I("ab"))]))]);
    r13 = Alt(&[Alt(&[S("a"), R('c', 'd')]), Alt(&[S("a"), S(".."), x::r4])]);
    r14 = Opt(&Alt(&[x::r9, S("aa")]));
    r15 = Seq(&[(T::N, Alt(&[S("1"), S("b"), x::r11])), (T::N, R('c', 'c')), (T::N, Alt(&[x::r13, x::r7]))]);
    r16 = Seq(&[(T::N, Opt(&x::r0)), (T::N, I("a")), (T::N, Opt(&x::_r6)), (T::N, R('a', 'c')), (T::N, Opt(&R('c', 'c'))), (T::N, x::r3), (T::N, I("b")), (T::N, Opt(&x::r10)), (T::N, S("ba")), (T::N, Opt(&R('a', 'b'))), (T::N, Opt(&x::r8)), (T::N, x::_r5), (T::N, Opt(&Any))]);
    r17 = Seq(&[(T::N, Alt(&[x::_r6, I("ab")])), (T::N, x::_r5)]);
    r18 = Alt(&[Alt(&[Seq(&[(T::N, R('a', 'a')), (T::N, R('b', 'b'))]), Alt(&[S("11"), S("a")]), Seq(&[(T::N, R('a', 'b')), (T::N, I("b"))])]), Alt(&[Alt(&[x::r7, S("a"), R('a', 'b'), I("b1")]), Seq(&[(T::N, I("a")), (T::N, S("1.")), (T::N, I("a"))])]), Rep(&Alt(&[S("b"), R('a', 'a')]), 1, 2, T::N)]);
    r19 = Alt(&[Alt(&[Alt(&[S("."), x::_r2]), Seq(&[(T::N, x::_r5), (T::N, S("1"))]), Seq(&[(T::N, I("bb")), (T::N, I("b"))]), Alt(&[R('c', 'c'), R('a', 'c')])]), Alt(&[Seq(&[(T::N, I("bb")), (T::N, S("11")), (T::N, R('a', 'c'))]), Seq(&[(T::N, S(".")), (T::N, R('a', 'c'))])]), Seq(&[(T::N, Alt(&[R('b', 'c'), S("1")])), (T::N, Alt(&[S("b"), x::r8, Any, R('a', 'c')])), (T::N, Seq(&[(T::N, S(".")), (T::N, S("1b")), (T::N, S("b"))])), (T::N, Seq(&[(T::N, x::_r2), (T::N, S("."))]))])]);
}
suite! { mod choice1 = r##"
~ = " "
^ = "_"
r0 = i"a1"
r1 = 'b'..'d' | r0
r2 = "1" | "1"
_r3 = _{ ((i"b" | i"b1" | pest::any) - (r1 | r0 | "ba") - (r2 - r2 - i"b") - "a") | ("."? | "b"? | "."{2} | ("1" - "1" - r1)) | (("." - i"ab") | ('b'..'c' - "1" - r1 - r2) | ("a" - pest::any - r1)) | ((r0 | r0 | i"b") | (r1 - "b" - r1) | (i"b1" | "b.") | r0?) }
r4 = &("ab"?) | (('a'..'c' - r1) | r1?)
r5 = !(r4?)
_r6 = _{ ('a'..'d')? | "a"? | ("" | i"a1") }
r7 = ((r1 | "b." | ".b") - (_r6 | "b") - "1a") | (('a'..'b' - "ba" - r0) - ("." - r1 - pest::any) - (r2 - "b") - i"a"?)
r8 = ('a'..'c' | _r3 | r7)?
_r9 = _{ !(pest::any) - ((r2 | r0 | i"a" | "b") - ('a'..'c' | "a")) }
r10 = (i"a" - _r9 - pest::any) | (r2 - _r6)
r11 = ((r8 - "" - r0) - r2? - ("a" | i"b")) - (('a'..'c')? | (r2 | _r6 | i"a1")) - ((i"ab" - "..") | r5?)
r12 = r7 - ("b"? - ("b" - 'a'..'d' - 'b'..'c' - i"ab"))
_r13 = _{ ("1"?)? }
_r14 = _{ (".a"? - i"bb"? - i"ab"? - _r6? - i"a"?) - ("1" - &(r2) - ("b" - 'a'..'c' - pest::any)) }
r15 = (("aa" - i"b1" - r10 - 'c'..'d') | (r11 - 'a'..'c')) - ((i"b" | _r13) - ("a." - _r9 - "a"))
r16 = ("a"? | (r10 | r10)) | ("bb" | 'b'..'c')? | ((i"b1" - ".1") | ("1" - r5 - "."))
r17 = r11 - (&(_r14) | ".1" | "a"{..2})
r18 = !(i"b1") - (_r13 | "1" | 'b'..'c' | r5)
r19 = ("." | i"b1") - ("a" | ".." | "") - (i"ab" | "b.")
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = I("a1");
    r1 = Alt(&[R('b', 'd'), x::r0]);
    r2 = Alt(&[S("1"), S("1")]);
    _r3 "_" = Alt(&[Seq(&[(T::N, Alt(&[I("b"), I("b1"), Any])), (T::N, Alt(&[x::r1, x::r0, S("ba")])), (T::N, Seq(&[(T::N, x::r2), (T::N, x::r2), (T::N, I("b"))])), (T::N, S("a"))]), Alt(&[Opt(&S(".")), Opt(&S("b")), Rep(&S("."), 2, 2, T::N), Seq(&[(T::N, S("1")), (T::N, S("1")), (T::N, x::r1)])]), Alt(&[Seq(&[(T::N, S(".")), (T::N, I("ab"))]), Seq(&[(T::N, R('b', 'c')), (T::N, S("1")), (T::N, x::r1), (T::N, x::r2)]), Seq(&[(T::N, S("a")), (T::N, Any), (T::N, x::r1)])]), Alt(&[Alt(&[x::r0, x::r0, I("b")]), Seq(&[(T::N, x::r1), (T::N, S("b")), (T::N, x::r1)]), Alt(&[I("b1"), S("b.")]), Opt(&x::r0)])]);
    r4 = Alt(&[Pos(&Opt(&S("ab"))), Alt(&[Seq(&[(T::N, R('a', 'c')), (T::N, x::r1)]), Opt(&x::r1)])]);
    r5 = Neg(&Opt(&x::r4));
    _r6 "_" = Alt(&[Opt(&R('a', 'd')), Opt(&S("a")), Alt(&[S(""), I("a1")])]);
    r7 = Alt(&[Seq(&[(T::N, Alt(&[x::r1, S("b."), S(".b")])), (T::N, Alt(&[x::_r6, S("b")])), (T::N, S("1a"))]), Seq(&[(T::N, Seq(&[(T::N, R('a', 'b')), (T::N, S("ba")), (T::N, x::r0)])), (T::N, Seq(&[(T::N, S(".")), (T::N, x::r1), (T::N, Any)])), (T::N, Seq(&[(T::N, x::r2), (T::N, S("b"))])), (T::N, Opt(&I("a")))])]);
    r8 = Opt(&Alt(&[R('a', 'c'), x::_r3, x::r7]));
    _r9 "_" = Seq(&[(T::N, Neg(&Any)), (T::N, Seq(&[(T::N, Alt(&[x::r2, x::r0, I("a"), S("b")])), (T::N, Alt(&[R('a', 'c'), S("a")]))]))]);
    r10 = Alt(&[Seq(&[(T::N, I("a")), (T::N, x::_r9), (T::N, Any)]), Seq(&[(T::N, x::r2), (T::N, x::_r6)])]);
    r11 = Seq(&[(T::N, Seq(&[(T::N, Seq(&[(T::N, x::r8), (T::N, S("")), (T::N, x::r0)])), (T::N, Opt(&x::r2)), (T::N, Alt(&[S("a"), I("b")]))])), (T::N, Alt(&[Opt(&R('a', 'c')), Alt(&[x::r2, x::_r6, I("a1")])])), (T::N, Alt(&[Seq(&[(T::N, I("ab")), (T::N, S(".."))]), Opt(&x::r5)]))]);
    r12 = Seq(&[(T::N, x::r7), (T::N, Seq(&[(T::N, Opt(&S("b"))), (T::N, Seq(&[(T::N, S("b")), (T::N, R('a', 'd')), (T::N, R('b', 'c')), (T::N, I("ab"))]))]))]);
    _r13 "_" = Opt(&Opt(&S("1")));
    _r14 "_" = Seq(&[(T::N, Seq(&[(T::N, Opt(&S(".a"))), (T::N, Opt(&I("bb"))), (T::N, Opt(&I("ab"))), (T::N, Opt(&x::_r6)), (T::N, Opt(&I("a")))])), (T::N, Seq(&[(T::N, S("1")), (T::N, Pos(&x::r2)), (T::N, Seq(&[(T::N, S("b")), (T::N, R('a', 'c')), (T::N, Any)]))]))]);
    r15 = Seq(&[(T::N, Alt(&[Seq(&[(T::N, S("aa")), (T::N, I("b1")), (T::N, x::r10), (T::N, R('c', 'd'))]), Seq(&[(T::N, x::r11), (T::N, R('a', 'c'))])])), (T::N, Seq(&[(T::N, Alt(&[I("b"), x::_r13])), (T::N, Seq(&[(T::N, S("a.")), (T::N, x::_r9), (T::N, S("a"))]))]))]);
    r16 = Alt(&[Alt(&[Opt(&S("a")), Alt(&[x::r10, x::r10])]), Opt(&Alt(&[S("bb"), R('b', 'c')])), Alt(&[Seq(&[(T::N, I("b1")), (T::N, S(".1"))]), Seq(&[(T::N, S("1")), (T::N, x::r5), (T::N, S("."))])])]);
    r17 = Seq(&[(T::N, x::r11), (T::N, Alt(&[Pos(&x::_r14), S(".1"), Rep(&S("a"), 0, 2, T::N)]))]);
    r18 = Seq(&[(T::N, Neg(&I("b1"))), (T::N, Alt(&[x::_r13, S("1"), R('b', 'c'), x::r5]))]);
    r19 = Seq(&[(T::N, Alt(&[S("."), I("b1")])), (T::N, Alt(&[S("a"), S(".."), S("")])), (T::N, Alt(&[I("ab"), S("b.")]))]);
}
suite! { mod choice2 = r##"
~ = " "
^ = "_"
r0 = "1"
r1 = ".a" | r0 | r0 | i"a"
r2 = r0 | r0 | i"b1" | i"a"
r3 = (i"a1" | "1.")? - (('b'..'d')? | ""? | (r2 | 'b'..'c')) - &(r0 | ".1" | i"a" | "bb")
_r4 = _{ i"a" | ("1." - "b1" - pest::any) }
r5 = (("1" | "bb" | pest::any | r1) - ('a'..'b'){2} - (r1 | ".")) | ("b."{0..1})?
r6 = 'b'..'b'
r7 = !(r0? - (i"b" | r6) - ('a'..'a')+ - (r6 - ".b"))
r8 = &((('c'..'d' | "") | r0 | _r4 | "." | "." | "b1" | r3 | ("bb" | "b" | 'a'..'c') | "" | ('b'..'c' | r7) | r0 | ('b'..'c')?) - (i"ab" - i"a1"))
r9 = ((i"a1" - r0) - ((_r4 - pest::any - "1b" - i"b") | (r2 - 'b'..'d' - "a") | (r3 - r0 - "" - 'a'..'a') | 'b'..'d' | r2) - (r3 | r2 | i"b" | r5)) | (r6 - ("11" | ".1"))
_r10 = _{ (('c'..'d')? - r0? - ("" - r0 - r3)) | (i"a1" | r9)? | ("1" | i"a")? | ("."? | ("." - i"a1") | (".a" | r8) | ("a" | r7)) }
_r11 = _{ (('b'..'d' - "ab" - ".b" - r0) | (pest::any){2} | ('a'..'c' | "1")) | ((r0 | "11" | "b" | r7) | ("b." - r0) | (r3 | "a.") | (_r4 | r7) | ("a1" - 'b'..'c' - i"a1") | "" | &("b1") | ("a" | r9 | r6 | ".1")) }
_r12 = _{ (i"ab" - 'a'..'d' - 'b'..'b'){1..} }
_r13 = _{ (r9 - _r12 - ".b" - 'a'..'c') - ("1" | 'a'..'c' | _r12 | r2) - ("b." - _r12 - "b") }
_r14 = _{ ("."? - (r8 | i"a1")) | ((_r4 - 'b'..'c') | (pest::any)? | (pest::any | 'b'..'c') | ("b" | 'c'..'d' | i"b1" | _r10)) }
r15 = r9 | ("." - _r11) | "a"? | (r7 | r0) | _r13 | r6? | (i"a1" | "a") | ".a" | !(i"b1") | "1" | ('a'..'d'){1} | ".1" | (r1 - "a") | "b" | ".a" | "1." | ('b'..'d' - "b." - i"ab") | (r8 | r5) | 'a'..'b' | ("" | 'b'..'c' | "1.")
_r16 = _{ ("1" | 'a'..'b' | "a" | i"a" | ("b" | 'a'..'c') | r5 | ("1" | i"a") | ("" | i"b" | "." | r15 | (".a" | "b" | "") | r6 | r2 | "" | "." | (pest::any){..2} | "." | _r10 | "1" | "a" | &("1") | i"b" | 'a'..'d') | 'a'..'c' | (r1 | i"bb" | pest::any | i"b")) - (i"bb" | r3)? - (i"ab" | 'a'..'c')? }
r17 = (r2? - ".b"? - "."? - "b" - ""? - r5? - i"b1"? - "aa" - ".1"? - "b"? - 'a'..'a' - ".."? - ('c'..'d')?) | (_r10 - (".1" | i"ab" | r0) - (('a'..'a')? - (pest::any)? - r2? - "1"? - _r13? - "b"? - r0? - _r16? - "b." - "a"? - ('a'..'b')? - ".a"? - ""? - "b"? - "a"? - ('b'..'b')?))
r18 = ("11" - i"ab" - r9){2..} - ((_r4 - "aa" - "1.") - i"b1"? - (r1 | _r10 | r5 | r9))
r19 = ("a" | ".a") | (".1" - _r11 - "b")
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S("1");
    r1 = Alt(&[S(".a"), x::r0, x::r0, I("a")]);
    r2 = Alt(&[x::r0, x::r0, I("b1"), I("a")]);
    r3 = Seq(&[(T::N, Opt(&Alt(&[I("a1"), S("1.")]))), (T::N, Alt(&[Opt(&R('b', 'd')), Opt(&S("")), Alt(&[x::r2, R('b', 'c')])])), (T::N, Pos(&Alt(&[x::r0, S(".1"), I("a"), S("bb")])))]);
    _r4 "_" = Alt(&[I("a"), Seq(&[(T::N, S("1.")), (T::N, S("b1")), (T::N, Any)])]);
    r5 = Alt(&[Seq(&[(T::N, Alt(&[S("1"), S("bb"), Any, x::r1])), (T::N, Rep(&R('a', 'b'), 2, 2, T::N)), (T::N, Alt(&[x::r1, S(".")]))]), Opt(&Rep(&S("b."), 0, 1, T::N))]);
    r6 = R('b', 'b');
    r7 = Neg(&Seq(&[(T::N, Opt(&x::r0)), (T::N, Alt(&[I("b"), x::r6])), (T::N, Rep(&R('a', 'a'), 1, INF, T::N)), (T::N, Seq(&[(T::N, x::r6), (T::N, S(".b"))]))]));
    r8 = Pos(&Seq(&[(T::N, Alt(&[Alt(&[R('c', 'd'), S("")]), x::r0, x::_r4, S("."), S("."), S("b1"), x::r3, Alt(&[S("bb"), S("b"), R('a', 'c')]), S(""), Alt(&[R('b', 'c'), x::r7]), x::r0, Opt(&R('b', 'c'))])), (T::N, Seq(&[(T::N, I("ab")), (T::N, I("a1"))]))]));
    r9 = Alt(&[Seq(&[(T::N, Seq(&[(T::N, I("a1")), (T::N, x::r0)])), (T::N, Alt(&[Seq(&[(T::N, x::_r4), (T::N, Any), (T::N, S("1b")), (T::N, I("b"))]), Seq(&[(T::N, x::r2), (T::N, R('b', 'd')), (T::N, S("a"))]), Seq(&[(T::N, x::r3), (T::N, x::r0), (T::N, S("")), (T::N, R('a', 'a'))]), R('b', 'd'), x::r2])), (T::N, Alt(&[x::r3, x::r2, I("b"), x::r5]))]), Seq(&[(T::N, x::r6), (T::N, Alt(&[S("11"), S(".1")]))])]);
    _r10 "_" = Alt(&[Seq(&[(T::N, Opt(&R('c', 'd'))), (T::N, Opt(&x::r0)), (T::N, Seq(&[(T::N, S("")), (T::N, x::r0), (T::N, x::r3)]))]), Opt(&Alt(&[I("a1"), x::r9])), Opt(&Alt(&[S("1"), I("a")])), Alt(&[Opt(&S(".")), Seq(&[(T::N, S(".")), (T::N, I("a1"))]), Alt(&[S(".a"), x::r8]), Alt(&[S("a"), x::r7])])]);
    _r11 "_" = Alt(&[Alt(&[Seq(&[(T::N, R('b', 'd')), (T::N, S("ab")), (T::N, S(".b")), (T::N, x::r0)]), Rep(&Any, 2, 2, T::N), Alt(&[R('a', 'c'), S("1")])]), Alt(&[Alt(&[x::r0, S("11"), S("b"), x::r7]), Seq(&[(T::N, S("b.")), (T::N, x::r0)]), Alt(&[x::r3, S("a.")]), Alt(&[x::_r4, x::r7]), Seq(&[(T::N, S("a1")), (T::N, R('b', 'c')), (T::N, I("a1"))]), S(""), Pos(&S("b1")), Alt(&[S("a"), x::r9, x::r6, S(".1")])])]);
    _r12 "_" = Rep(&Seq(&[(T::N, I("ab")), (T::N, R('a', 'd')), (T::N, R('b', 'b'))]), 1, INF, T::N);
    _r13 "_" = Seq(&[(T::N, Seq(&[(T::N, x::r9), (T::N, x::_r12), (T::N, S(".b")), (T::N, R('a', 'c'))])), (T::N, Alt(&[S("1"), R('a', 'c'), x::_r12, x::r2])), (T::N, Seq(&[(T::N, S("b.")), (T::N, x::_r12), (T::N, S("b"))]))]);
    _r14 "_" = Alt(&[Seq(&[(T::N, Opt(&S("."))), (T::N, Alt(&[x::r8, I("a1")]))]), Alt(&[Seq(&[(T::N, x::_r4), (T::N, R('b', 'c'))]), Opt(&Any), Alt(&[Any, R('b', 'c')]), Alt(&[S("b"), R('c', 'd'), I("b1"), x::_r10])])]);
    r15 = Alt(&[x::r9, Seq(&[(T::N, S(".")), (T::N, x::_r11)]), Opt(&S("a")), Alt(&[x::r7, x::r0]), x::_r13, Opt(&x::r6), Alt(&[I("a1"), S("a")]), S(".a"), Neg(&I("b1")), S("1"), Rep(&R('a', 'd'), 1, 1, T::N), S(".1"), Seq(&[(T::N, x::r1), (T::N, S("a"))]), S("b"), S(".a"), S("1."), Seq(&[(T::N, R('b', 'd')), (T::N, S("b.")), (T::N, I("ab"))]), Alt(&[x::r8, x::r5]), R('a', 'b'), Alt(&[S(""), R('b', 'c'), S("1.")])]);
    _r16 "_" = Seq(&[(T::N, Alt(&[S("1"), R('a', 'b'), S("a"), I("a"), Alt(&[S("b"), R('a', 'c')]), x::r5, Alt(&[S("1"), I("a")]), Alt(&[S(""), I("b"), S("."), x::r15, Alt(&[S(".a"), S("b"), S("")]), x::r6, x::r2, S(""), S("."), Rep(&Any, 0, 2, T::N), S("."), x::_r10, S("1"), S("a"), Pos(&S("1")), I("b"), R('a', 'd')]), R('a', 'c'), Alt(&[x::r1, I("bb"), Any, I("b")])])), (T::N, Opt(&Alt(&[I("bb"), x::r3]))), (T::N, Opt(&Alt(&[I("ab"), R('a', 'c')])))]);
    r17 = Alt(&[Seq(&[(T::N, Opt(&x::r2)), (T::N, Opt(&S(".b"))), (T::N, Opt(&S("."))), (T::N, S("b")), (T::N, Opt(&S(""))), (T::N, Opt(&x::r5)), (T::N, Opt(&I("b1"))), (T::N, S("aa")), (T::N, Opt(&S(".1"))), (T::N, Opt(&S("b"))), (T::N, R('a', 'a')), (T::N, Opt(&S(".."))), (T::N, Opt(&R('c', 'd')))]), Seq(&[(T::N, x::_r10), (T::N, Alt(&[S(".1"), I("ab"), x::r0])), (T::N, Seq(&[(T::N, Opt(&R('a', 'a'))), (T::N, Opt(&Any)), (T::N, Opt(&x::r2)), (T::N, Opt(&S("1"))), (T::N, Opt(&x::_r13)), (T::N, Opt(&S("b"))), (T::N, Opt(&x::r0)), (T::N, Opt(&x::_r16)), (T::N, S("b.")), (T::N, Opt(&S("a"))), (T::N, Opt(&R('a', 'b'))), (T::N, Opt(&S(".a"))), (T::N, Opt(&S(""))), (T::N, Opt(&S("b"))), (T::N, Opt(&S("a"))), (T::N, Opt(&R('b', 'b')))]))])]);
    r18 = Seq(&[(T::N, Rep(&Seq(&[(T::N, S("11")), (T::N, I("ab")), (T::N, x::r9)]), 2, INF, T::N)), (T::N, Seq(&[(T::N, Seq(&[(T::N, x::_r4), (T::N, S("aa")), (T::N, S("1."))])), (T::N, Opt(&I("b1"))), (T::N, Alt(&[x::r1, x::_r10, x::r5, x::r9]))]))]);
    r19 = Alt(&[Alt(&[S("a"), S(".a")]), Seq(&[(T::N, S(".1")), (T::N, x::_r11), (T::N, S("b"))])]);
}
suite! { mod choice3 = r##"
~ = " "
^ = "_"
r0 = ""
r1 = r0 | pest::any
r2 = "b" - "" - r0
r3 = ((".1" - r2 - r2 - 'a'..'d') - (r0 | r2 | r0 | "aa") - ('b'..'d' - r0 - "1" - 'b'..'c') - ("." - 'a'..'c' - r0)) | (("." - "aa" - i"ab" - "11") - r1) | (r2 | 'a'..'c' | "a" | r0)? | ("aa"? - (r0 - r1 - "a1") - (r0 | r0 | "1a" | r1))
_r4 = _{ ('a'..'b')? - i"a"? - ".1"? - r2? - "1"? - "1."? - "b"? }
r5 = "."{1..3} | (_r4? - (i"a" | _r4 | ".1")) | ("1" - "b1" - "." - r3)?
r6 = "1"
r7 = !(r5?) - ((r3 - i"a1") - (pest::any){..} - (i"bb" | "a1" | "a" | r2)) - (("." - r5 - r5) | ("b" - r3 - ".a") | 'a'..'b' | i"b1" | ("." | pest::any | ".b" | "..") | r0 | ("1" | _r4 | "b") | ('c'..'c')? | r1 | ".." | "b" | "a" | 'a'..'c' | i"b" | ("a" | "1") | i"a1"? | ".b" | ("." | r3 | r6 | i"b") | ('b'..'b')? | r6)
_r8 = _{ (('b'..'c' | 'b'..'c') - r7? - _r4?) | ("aa" | r5 | r2 | r7)? }
r9 = (".b" | "b" | "b" | "1")? | 'b'..'c'
r10 = (pest::any | "b") - (pest::any)?
r11 = ("a" - "1" - "1a")?
_r12 = _{ ("b" | (r11 | r5 | 'b'..'b') | (i"a" - i"a" - r7)) | (("a" | pest::any | r11 | r5) - "ba" - "b"?) | (("a" | 'a'..'b') | i"a1"?) | ((i"a1" - pest::any - i"b") | ("ba" - "a")) }
r13 = "a" - (r9 | r10) - (pest::any | "." | i"ab")
r14 = ("11" | "." | 'a'..'b')? | ("b"{1..2} | _r12) | r0
r15 = "b" - "ba"?
r16 = !("a") - r3? - (r10 - "." - r7) - ("" | (i"bb" | i"bb" | r14) | i"bb"{3} | pest::any | "1" | ('b'..'c')? | "a" | r1 | r0 | (r14 | "a" | r2 | r9) | "1a" | r11)
r17 = "b."? | (r9 | i"a1")
r18 = (("" | "b" | r5) - "a"{1}) | ("1"?)? | _r8
_r19 = _{ pest::any }
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S("");
    r1 = Alt(&[x::r0, Any]);
    r2 = Seq(&[(T::N, S("b")), (T::N, S("")), (T::N, x::r0)]);
    r3 = Alt(&[Seq(&[(T::N, Seq(&[(T::N, S(".1")), (T::N, x::r2), (T::N, x::r2), (T::N, R('a', 'd'))])), (T::N, Alt(&[x::r0, x::r2, x::r0, S("aa")])), (T::N, Seq(&[(T::N, R('b', 'd')), (T::N, x::r0), (T::N, S("1")), (T::N, R('b', 'c'))])), (T::N, Seq(&[(T::N, S(".")), (T::N, R('a', 'c')), (T::N, x::r0)]))]), Seq(&[(T::N, Seq(&[(T::N, S(".")), (T::N, S("aa")), (T::N, I("ab")), (T::N, S("11"))])), (T::N, x::r1)]), Opt(&Alt(&[x::r2, R('a', 'c'), S("a"), x::r0])), Seq(&[(T::N, Opt(&S("aa"))), (T::N, Seq(&[(T::N, x::r0), (T::N, x::r1), (T::N, S("a1"))])), (T::N, Alt(&[x::r0, x::r0, S("1a"), x::r1]))])]);
    _r4 "_" = Seq(&[(T::N, Opt(&R('a', 'b'))), (T::N, Opt(&I("a"))), (T::N, Opt(&S(".1"))), (T::N, Opt(&x::r2)), (T::N, Opt(&S("1"))), (T::N, Opt(&S("1."))), (T::N, Opt(&S("b")))]);
    r5 = Alt(&[Rep(&S("."), 1, 3, T::N), Seq(&[(T::N, Opt(&x::_r4)), (T::N, Alt(&[I("a"), x::_r4, S(".1")]))]), Opt(&Seq(&[(T::N, S("1")), (T::N, S("b1")), (T::N, S(".")), (T::N, x::r3)]))]);
    r6 = S("1");
    r7 = Seq(&[(T::N, Neg(&Opt(&x::r5))), (T::N, Seq(&[(T::N, Seq(&[(T::N, x::r3), (T::N, I("a1"))])), (T::N, Rep(&Any, 0, INF, T::N)), (T::N, Alt(&[I("bb"), S("a1"), S("a"), x::r2]))])), (T::N, Alt(&[Seq(&[(T::N, S(".")), (T::N, x::r5), (T::N, x::r5)]), Seq(&[(T::N, S("b")), (T::N, x::r3), (T::N, S(".a"))]), R('a', 'b'), I("b1"), Alt(&[S("."), Any, S(".b"), S("..")]), x::r0, Alt(&[S("1"), x::_r4, S("b")]), Opt(&R('c', 'c')), x::r1, S(".."), S("b"), S("a"), R('a', 'c'), I("b"), Alt(&[S("a"), S("1")]), Opt(&I("a1")), S(".b"), Alt(&[S("."), x::r3, x::r6, I("b")]), Opt(&R('b', 'b')), x::r6]))]);
    _r8 "_" = Alt(&[Seq(&[(T::N, Alt(&[R('b', 'c'), R('b', 'c')])), (T::N, Opt(&x::r7)), (T::N, Opt(&x::_r4))]), Opt(&Alt(&[S("aa"), x::r5, x::r2, x::r7]))]);
    r9 = Alt(&[Opt(&Alt(&[S(".b"), S("b"), S("b"), S("1")])), R('b', 'c')]);
    r10 = Seq(&[(T::N, Alt(&[Any, S("b")])), (T::N, Opt(&Any))]);
    r11 = Opt(&Seq(&[(T::N, S("a")), (T::N, S("1")), (T::N, S("1a"))]));
    _r12 "_" = Alt(&[Alt(&[S("b"), Alt(&[x::r11, x::r5, R('b', 'b')]), Seq(&[(T::N, I("a")), (T::N, I("a")), (T::N, x::r7)])]), Seq(&[(T::N, Alt(&[S("a"), Any, x::r11, x::r5])), (T::N, S("ba")), (T::N, Opt(&S("b")))]), Alt(&[Alt(&[S("a"), R('a', 'b')]), Opt(&I("a1"))]), Alt(&[Seq(&[(T::N, I("a1")), (T::N, Any), (T::N, I("b"))]), Seq(&[(T::N, S("ba")), (T::N, S("a"))])])]);
    r13 = Seq(&[(T::N, S("a")), (T::N, Alt(&[x::r9, x::r10])), (T::N, Alt(&[Any, S("."), I("ab")]))]);
    r14 = Alt(&[Opt(&Alt(&[S("11"), S("."), R('a', 'b')])), Alt(&[Rep(&S("b"), 1, 2, T::N), x::_r12]), x::r0]);
    r15 = Seq(&[(T::N, S("b")), (T::N, Opt(&S("ba")))]);
    r16 = Seq(&[(T::N, Neg(&S("a"))), (T::N, Opt(&x::r3)), (T::N, Seq(&[(T::N, x::r10), (T::N, S(".")), (T::N, x::r7)])), (T::N, Alt(&[S(""), Alt(&[I("bb"), I("bb"), x::r14]), Rep(&I("bb"), 3, 3, T::N), Any, S("1"), Opt(&R('b', 'c')), S("a"), x::r1, x::r0, Alt(&[x::r14, S("a"), x::r2, x::r9]), S("1a"), x::r11]))]);
    r17 = Alt(&[Opt(&S("b.")), Alt(&[x::r9, I("a1")])]);
    r18 = Alt(&[Seq(&[(T::N, Alt(&[S(""), S("b"), x::r5])), (T::N, Rep(&S("a"), 1, 1, T::N))]), Opt(&Opt(&S("1"))), x::_r8]);
    _r19 "_" = Any;
}
suite! { mod choice4 = r##"
~ = " "
^ = "_"
r0 = ""
r1 = "b" | r0 | r0
r2 = i"a" - i"b1" - "a."
r3 = "a"?
_r4 = _{ ("."? - ("" | "b")) | (("a" - r0) - ('c'..'d' | "a." | 'a'..'c' | 'a'..'c')) }
_r5 = _{ (("b" | 'a'..'c' | i"a") - ("b" | _r4))? }
r6 = ("." | "1" | 'b'..'b' | 'a'..'d') | r3
r7 = (i"a" | ("b" | "a1"? | "1" | ".a" | ("11" - _r5) | 'a'..'b' | (pest::any - 'a'..'b') | _r5 | (r6 | r1) | r0 | ("1" | "1") | "a") | "1" | pest::any | 'a'..'c' | (i"a1" - "a." - r6) | i"bb" | 'a'..'b' | 'a'..'b' | ".a" | ".b" | "a1" | ("a" - ".") | "b" | "1" | "ab" | "" | (_r5 | "") | "b"{0..1} | "1") | &(('b'..'b')?)
r8 = ("1"{2..} | "b"?)?
r9 = (pest::any | 'a'..'d') | "1" | (pest::any | ("b" | i"ab" | pest::any) | "1" | ('b'..'d' - ".1") | "1" | "" | i"bb" | "a" | i"bb" | "b" | !(r1) | (r0 | i"a1") | (r7 - r6)) | pest::any
r10 = ('a'..'c' - 'a'..'c') | i"a1"? | (i"a1" | 'b'..'c') | ("1a" | "b")
r11 = ((_r5 - ".") - ("a" - "" - pest::any - 'a'..'d') - ("1" | r3 | i"a1")) - (("1" - "a") | ('b'..'c')? | ('b'..'b' - i"bb" - r2 - r7)) - 'a'..'c' - (("." | r8 | "." | "11") | (r7 | "b"))
r12 = (r9 - r8) - i"a"? - (("b1" - i"a1" - ".") | ("b." - r2 - 'a'..'d') | "bb" | i"a1" | _r4 | (".a" | r10) | ('b'..'d' | i"a" | "11" | 'a'..'d') | 'b'..'c' | i"a" | (r1 - "b" - "aa") | (r7 | "." | r8) | i"b1" | 'b'..'d' | ("1" - i"b1") | r7 | r8 | r2{3} | (_r4 | _r4 | ".1") | (_r4 | "aa" | r10) | "a."?)
r13 = ((r10 | 'b'..'c') - r8?) | ((".1" - i"bb") | ("" | i"bb" | 'b'..'c' | r3 | ('a'..'c' | "." | pest::any | 'a'..'b') | ("1" - "a.")) | (r10 - "1" - "1a" - "1")) | r6 | (('c'..'c' - "1" - ".") | i"a"?)
r14 = (i"a" - ".b" - 'a'..'b' - "11") | ("" - "1") | "b"{..2}
r15 = &("1"? - 'b'..'d' - i"b" - r12? - 'b'..'b' - "1"? - "aa"? - "b" - ".1" - "."?)
_r16 = _{ ((pest::any | i"a1") | ('a'..'c' | "a" | _r5 | "")) - !(i"a1"?) - (""? - ('a'..'c' | "a") - (r8 | "." | "b" | pest::any) - ("a." - 'b'..'c')) - ((r15 - r9) | r7?) }
_r17 = _{ (('c'..'c' - "a." - 'b'..'b' - "bb")?)? }
r18 = ("a" - ("a" | i"ab")) - "b"? - (("ab" | pest::any) | (i"ab" - 'b'..'b') | ("1" - 'b'..'c' - r9) | "1a"?)
_r19 = _{ ("a." - 'a'..'b' - "b")? }
"##; opt = Some(S(" ")); man = Some(S("_"));
    r0 = S("");
    r1 = Alt(&[S("b"), x::r0, x::r0]);
    r2 = Seq(&[(T::N, I("a")), (T::N, I("b1")), (T::N, S("a."))]);
    r3 = Opt(&S("a"));
    _r4 "_" = Alt(&[Seq(&[(T::N, Opt(&S("."))), (T::N, Alt(&[S(""), S("b")]))]), Seq(&[(T::N, Seq(&[(T::N, S("a")), (T::N, x::r0)])), (T::N, Alt(&[R('c', 'd'), S("a."), R('a', 'c'), R('a', 'c')]))])]);
    _r5 "_" = Opt(&Seq(&[(T::N, Alt(&[S("b"), R('a', 'c'), I("a")])), (T::N, Alt(&[S("b"), x::_r4]))]));
    r6 = Alt(&[Alt(&[S("."), S("1"), R('b', 'b'), R('a', 'd')]), x::r3]);
    r7 = Alt(&[Alt(&[I("a"), Alt(&[S("b"), Opt(&S("a1")), S("1"), S(".a"), Seq(&[(T::N, S("11")), (T::N, x::_r5)]), R('a', 'b'), Seq(&[(T::N, Any), (T::N, R('a', 'b'))]), x::_r5, Alt(&[x::r6, x::r1]), x::r0, Alt(&[S("1"), S("1")]), S("a")]), S("1"), Any, R('a', 'c'), Seq(&[(T::N, I("a1")), (T::N, S("a.")), (T::N, x::r6)]), I("bb"), R('a', 'b'), R('a', 'b'), S(".a"), S(".b"), S("a1"), Seq(&[(T::N, S("a")), (T::N, S("."))]), S("b"), S("1"), S("ab"), S(""), Alt(&[x::_r5, S("")]), Rep(&S("b"), 0, 1, T::N), S("1")]), Pos(&Opt(&R('b', 'b')))]);
    r8 = Opt(&Alt(&[Rep(&S("1"), 2, INF, T::N), Opt(&S("b"))]));
    r9 = Alt(&[Alt(&[Any, R('a', 'd')]), S("1"), Alt(&[Any, Alt(&[S("b"), I("ab"), Any]), S("1"), Seq(&[(T::N, R('b', 'd')), (T::N, S(".1"))]), S("1"), S(""), I("bb"), S("a"), I("bb"), S("b"), Neg(&x::r1), Alt(&[x::r0, I("a1")]), Seq(&[(T::N, x::r7), (T::N, x::r6)])]), Any]);
    r10 = Alt(&[Seq(&[(T::N, R('a', 'c')), (T::N, R('a', 'c'))]), Opt(&I("a1")), Alt(&[I("a1"), R('b', 'c')]), Alt(&[S("1a"), S("b")])]);
    r11 = Seq(&[(T::N, Seq(&[(T::N, Seq(&[(T::N, x::_r5), (T::N, S("."))])), (T::N, Seq(&[(T::N, S("a")), (T::N, S("")), (T::N, Any), (T::N, R('a', 'd'))])), (T::N, Alt(&[S("1"), x::r3, I("a1")]))])), (T::N, Alt(&[Seq(&[(T::N, S("1")), (T::N, S("a"))]), Opt(&R('b', 'c')), Seq(&[(T::N, R('b', 'b')), (T::N, I("bb")), (T::N, x::r2), (T::N, x::r7)])])), (T::N, R('a', 'c')), (T::N, Alt(&[Alt(&[S("."), x::r8, S("."), S("11")]), Alt(&[x::r7, S("b")])]))]);
    r12 = Seq(&[(T::N, Seq(&[(T::N, x::r9), (T::N, x::r8)])), (T::N, Opt(&I("a"))), (T::N, Alt(&[Seq(&[(T::N, S("b1")), (T::N, I("a1")), (T::N, S("."))]), Seq(&[(T::N, S("b.")), (T::N, x::r2), (T::N, R('a', 'd'))]), S("bb"), I("a1"), x::_r4, Alt(&[S(".a"), x::r10]), Alt(&[R('b', 'd'), I("a"), S("11"), R('a', 'd')]), R('b', 'c'), I("a"), Seq(&[(T::N, x::r1), (T::N, S("b")), (T::N, S("aa"))]), Alt(&[x::r7, S("."), x::r8]), I("b1"), R('b', 'd'), Seq(&[(T::N, S("1")), (T::N, I("b1"))]), x::r7, x::r8, Rep(&x::r2, 3, 3, T::N), Alt(&[x::_r4, x::_r4, S(".1")]), Alt(&[x::_r4, S("aa"), x::r10]), Opt(&S("a."))]))]);
    r13 = Alt(&[Seq(&[(T::N, Alt(&[x::r10, R('b', 'c')])), (T::N, Opt(&x::r8))]), Alt(&[Seq(&[(T::N, S(".1")), (T::N, I("bb"))]), Alt(&[S(""), I("bb"), R('b', 'c'), x::r3, Alt(&[R('a', 'c'), S("."), Any, R('a', 'b')]), Seq(&[(T::N, S("1")), (T::N, S("a."))])]), Seq(&[(T::N, x::r10), (T::N, S("1")), (T::N, S("1a")), (T::N, S("1"))])]), x::r6, Alt(&[Seq(&[(T::N, R('c', 'c')), (T::N, S("1")), (T::N, S("."))]), Opt(&I("a"))])]);
    r14 = Alt(&[Seq(&[(T::N, I("a")), (T::N, S(".b")), (T::N, R('a', 'b')), (T::N, S("11"))]), Seq(&[(T::N, S("")), (T::N, S("1"))]), Rep(&S("b"), 0, 2, T::N)]);
    r15 = Pos(&Seq(&[(T::N, Opt(&S("1"))), (T::N, R('b', 'd')), (T::N, I("b")), (T::N, Opt(&x::r12)), (T::N, R('b', 'b')), (T::N, Opt(&S("1"))), (T::N, Opt(&S("aa"))), (T::N, S("b")), (T::N, S(".1")), (T::N, Opt(&S(".")))]));
    _r16 "_" = Seq(&[(T::N, Alt(&[Alt(&[Any, I("a1")]), Alt(&[R('a', 'c'), S("a"), x::_r5, S("")])])), (T::N, Neg(&Opt(&I("a1")))), (T::N, Seq(&[(T::N, Opt(&S(""))), (T::N, Alt(&[R('a', 'c'), S("a")])), (T::N, Alt(&[x::r8, S("."), S("b"), Any])), (T::N, Seq(&[(T::N, S("a.")), (T::N, R('b', 'c'))]))])), (T::N, Alt(&[Seq(&[(T::N, x::r15), (T::N, x::r9)]), Opt(&x::r7)]))]);
    _r17 "_" = Opt(&Opt(&Seq(&[(T::N, R('c', 'c')), (T::N, S("a.")), (T::N, R('b', 'b')), (T::N, S("bb"))])));
    r18 = Seq(&[(T::N, Seq(&[(T::N, S("a")), (T::N, Alt(&[S("a"), I("ab")]))])), (T::N, Opt(&S("b"))), (T::N, Alt(&[Alt(&[S("ab"), Any]), Seq(&[(T::N, I("ab")), (T::N, R('b', 'b'))]), Seq(&[(T::N, S("1")), (T::N, R('b', 'c')), (T::N, x::r9)]), Opt(&S("1a"))]))]);
    _r19 "_" = Opt(&Seq(&[(T::N, S("a.")), (T::N, R('a', 'b')), (T::N, S("b"))]));
}
fn any_choice() -> usize { choose(100) }
#[allow(unused)] fn run_choice(k: usize, s: &'static str) { match k / 20 { 0 => { choice0::run(k % 20, s); } 1 => { choice1::run(k % 20, s); } 2 => { choice2::run(k % 20, s); } 3 => { choice3::run(k % 20, s); } 4 => { choice4::run(k % 20, s); } _ => {} } }
#[allow(unused)] fn visit_choice<V: Visit>(k: usize, v: &mut V) { match k / 20 { 0 => choice0::visit(k % 20, v), 1 => choice1::visit(k % 20, v), 2 => choice2::visit(k % 20, v), 3 => choice3::visit(k % 20, v), 4 => choice4::visit(k % 20, v), _ => {} } }
