// Written by bin/mkgen.py.
suite! { mod trivia0 = r##"
~ = " " | "-"
^ = "_"+
r0 = "b"
r1 = pest::any
r2 = r0{1..}
r3 = ((r1 | "a") ^ "bb"~{1} ~ (r0 | r2 | "a")) ^ ("  "{1..2})?
r4 = r2?
_r5 = _{ (("_" ^ "a")^{3}){..2} }
r6 = ((_r5 ~ r4 - "b_") ~ ('a'..'a' | 'b'..'d' | " " | "_"))~{0..1}
_r7 = _{ ((r1 ^ " " ~ r4 - _r5) ~ "_"? ^ (pest::any - " a") ^ (pest::any | "b" | "_")) - (("_" ^ "aa" - 'a'..'b' ^ "b") - "_"? - "b"{2..}) }
r8 = (("b" ~ pest::any) ~ ("b" ^ "a" - " b") ~ "b"^{0..1} ^ (r4 ^ r2))?
r9 = (("a " ^ 'a'..'b' ^ "_" ~ "b") | "b" | 'c'..'d' | r4?) ~ (" " | "_")~{1}
r10 = (_r7 ~ "b")^{1..}
r11 = (" "?)? ^ "_" - ("a" ^ "_"? ^ "b"? - "a"? ~ "a"? ~ " "? ~ ('c'..'d')? ~ "b"? ~ "a" ~ "_" ^ " "? - "ba"? ^ _r5? ^ _r5? ~ "_"? - "__"? ^ " "?)
r12 = (("b" ^ " ") | ("a" ~ 'b'..'c' ~ "ab")) | ((r3 ^ "_" - " ") ^ r1 ~ " _"?) | (("a" ^ "_" ~ "_") ^ "a"? ~ " "?)
_r13 = _{ r9{1..2} }
r14 = "a" - ("a"~{2..})^{..}
r15 = (r6 ~ r6 ~ "a" ~ "_")?
r16 = " "~{3} | (pest::any)?
r17 = (" " ^ r0)~*
_r18 = _{ (" " - r6 ^ r16)? }
r19 = ((r4 ^ "_" ^ "__") | r14~{..2}) ^ (r0 | 'b'..'b')? ~ ("_a"^{2} | ("_" ~ r10)) - (" "? | r14^{2})
"##; opt = Some(Alt(&[S(" "), S("-")])); man = Some(Rep(&S("_"), 1, INF, T::N));
    r0 = S("b");
    r1 = Any;
    r2 = Rep(&x::r0, 1, INF, T::N);
    r3 = Seq(&[(T::M, Seq(&[(T::M, Alt(&[x::r1, S("a")])), (T::M, Rep(&S("bb"), 1, 1, T::O)), (T::O, Alt(&[x::r0, x::r2, S("a")]))])), (T::M, Opt(&Rep(&S("  "), 1, 2, T::N)))]);
    r4 = Opt(&x::r2);
    _r5 "_" = Rep(&Rep(&Seq(&[(T::O, S("_")), (T::M, S("a"))]), 3, 3, T::M), 0, 2, T::N);
    r6 = Rep(&Seq(&[(T::N, Seq(&[(T::N, x::_r5), (T::O, x::r4), (T::N, S("b_"))])), (T::O, Alt(&[R('a', 'a'), R('b', 'd'), S(" "), S("_")]))]), 0, 1, T::O);
    _r7 "_" = Seq(&[(T::O, Seq(&[(T::M, Seq(&[(T::N, x::r1), (T::M, S(" ")), (T::O, x::r4), (T::N, x::_r5)])), (T::O, Opt(&S("_"))), (T::M, Seq(&[(T::M, Any), (T::N, S(" a"))])), (T::M, Alt(&[Any, S("b"), S("_")]))])), (T::N, Seq(&[(T::M, Seq(&[(T::N, S("_")), (T::M, S("aa")), (T::N, R('a', 'b')), (T::M, S("b"))])), (T::N, Opt(&S("_"))), (T::N, Rep(&S("b"), 2, INF, T::N))]))]);
    r8 = Opt(&Seq(&[(T::O, Seq(&[(T::M, S("b")), (T::O, Any)])), (T::O, Seq(&[(T::O, S("b")), (T::M, S("a")), (T::N, S(" b"))])), (T::O, Rep(&S("b"), 0, 1, T::M)), (T::M, Seq(&[(T::N, x::r4), (T::M, x::r2)]))]));
    r9 = Seq(&[(T::M, Alt(&[Seq(&[(T::M, S("a ")), (T::M, R('a', 'b')), (T::M, S("_")), (T::O, S("b"))]), S("b"), R('c', 'd'), Opt(&x::r4)])), (T::O, Rep(&Alt(&[S(" "), S("_")]), 1, 1, T::O))]);
    r10 = Rep(&Seq(&[(T::O, x::_r7), (T::O, S("b"))]), 1, INF, T::M);
    r11 = Seq(&[(T::O, Opt(&Opt(&S(" ")))), (T::M, S("_")), (T::N, Seq(&[(T::M, S("a")), (T::M, Opt(&S("_"))), (T::M, Opt(&S("b"))), (T::N, Opt(&S("a"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S(" "))), (T::O, Opt(&R('c', 'd'))), (T::O, Opt(&S("b"))), (T::O, S("a")), (T::O, S("_")), (T::M, Opt(&S(" "))), (T::N, Opt(&S("ba"))), (T::M, Opt(&x::_r5)), (T::M, Opt(&x::_r5)), (T::O, Opt(&S("_"))), (T::N, Opt(&S("__"))), (T::M, Opt(&S(" ")))]))]);
    r12 = Alt(&[Alt(&[Seq(&[(T::O, S("b")), (T::M, S(" "))]), Seq(&[(T::N, S("a")), (T::O, R('b', 'c')), (T::O, S("ab"))])]), Seq(&[(T::O, Seq(&[(T::O, x::r3), (T::M, S("_")), (T::N, S(" "))])), (T::M, x::r1), (T::O, Opt(&S(" _")))]), Seq(&[(T::N, Seq(&[(T::N, S("a")), (T::M, S("_")), (T::O, S("_"))])), (T::M, Opt(&S("a"))), (T::O, Opt(&S(" ")))])]);
    _r13 "_" = Rep(&x::r9, 1, 2, T::N);
    r14 = Seq(&[(T::O, S("a")), (T::N, Rep(&Rep(&S("a"), 2, INF, T::O), 0, INF, T::M))]);
    r15 = Opt(&Seq(&[(T::M, x::r6), (T::O, x::r6), (T::O, S("a")), (T::O, S("_"))]));
    r16 = Alt(&[Rep(&S(" "), 3, 3, T::O), Opt(&Any)]);
    r17 = Rep(&Seq(&[(T::N, S(" ")), (T::M, x::r0)]), 0, INF, T::O);
    _r18 "_" = Opt(&Seq(&[(T::O, S(" ")), (T::N, x::r6), (T::M, x::r16)]));
    r19 = Seq(&[(T::O, Alt(&[Seq(&[(T::M, x::r4), (T::M, S("_")), (T::M, S("__"))]), Rep(&x::r14, 0, 2, T::O)])), (T::M, Opt(&Alt(&[x::r0, R('b', 'b')]))), (T::O, Alt(&[Rep(&S("_a"), 2, 2, T::M), Seq(&[(T::M, S("_")), (T::O, x::r10)])])), (T::N, Alt(&[Opt(&S(" ")), Rep(&x::r14, 2, 2, T::M)]))]);
}
suite! { mod trivia1 = r##"
~ = " " | "-"
^ = "_"+
r0 = " "
r1 = "_"?
r2 = pest::any ~ 'a'..'b' - "b" ^ " "
r3 = r2 | (r1 ~ r1 ~ r1 ~ "a") | "b" | " " | r1 | "a" | " a" | "b" | r0 | (r1? ~ "_" - "_" - " "? ~ " "? - r1? ^ "_"? ~ r2) | r0 | 'c'..'d' | " " | r2 | 'a'..'c' | (r1 ^ r0 ~ "_" ^ "b") | 'a'..'c' | "ab" | (r0 ~ r2 ~ "a" ^ r2) | (" " ^ r1 ~ pest::any)
_r4 = _{ "a" }
r5 = (" " ~ " _")^{1..} | ((_r4 ^ "a") - r1 ^ (r1 ~ _r4 ^ r1 ~ "a") ~ ("a" | r1))
r6 = "_"
r7 = ("b" | (r0 ~ "_" ~ 'a'..'c') | "_a"? | (r5? ~ "_"? - "_"? ~ r6 ~ r1? ^ _r4 - r5? ^ "b"?))?
r8 = "_"
_r9 = _{ ("_" ^ _r4 ~ "b")^{3} ^ ("b" ~ "b" ~ r6)^{0..1} ~ ("aa"^* | r6{2}) ~ (_r4 | "_")? }
r10 = ("b"? - (r7 ~ "_" ~ 'a'..'c') ~ (_r4 ^ r2 ~ 'c'..'d'))?
r11 = (('a'..'b' | " b" | "a " | r3) - "a"? ~ ("a"? ~ "b"? ^ r6? ^ r0? ^ r7? ~ r7? ~ "b" - ('a'..'c')? - r3? ^ r5? ~ (pest::any)? ^ r10? ^ ('a'..'a')? ~ "b"? ~ r8? ~ r3)) ~ ("a" ^ (r10 | "_")) - ("a"^{1..3} | " " | "a"?)
r12 = ("_" ~ " " - "b" ^ "a") ~ (" " - "a" ~ r1)
r13 = ((pest::any)? ~ ("_" ^ r0 ^ r3)) ~ (" " ~ "a"~{1}) ^ r12
r14 = "_"~{..} ^ r12? ^ (r3 ~ " " - pest::any)
r15 = (("b"~{1..})~{..2})?
r16 = ("a" | (r15 ~ " " - r7) | ("a" ~ "a") | ("b" | "_" | " " | "_") | " _" | _r9) | ("_" ~ " " ~ "a") | _r9?
_r17 = _{ "a"? ~ r8? - r1? ~ _r4 - ('b'..'c')? ^ r16? ~ "_"? ^ r5? ^ "_b"? ~ " "? ~ " "? ^ r2 ^ "b"? - " "? ~ "__"? ~ " " ~ r0? }
_r18 = _{ "a" }
r19 = ((pest::any)? - "bb" ~ " "? ~ "_"? ~ r1? ~ ('a'..'c')? ~ pest::any ^ "_"? ~ (pest::any)? ~ (pest::any)? ~ 'a'..'d' ^ "_"? ^ "_"?)^{..2}
"##; opt = Some(Alt(&[S(" "), S("-")])); man = Some(Rep(&S("_"), 1, INF, T::N));
    r0 = S(" ");
    r1 = Opt(&S("_"));
    r2 = Seq(&[(T::N, Any), (T::O, R('a', 'b')), (T::N, S("b")), (T::M, S(" "))]);
    r3 = Alt(&[x::r2, Seq(&[(T::O, x::r1), (T::O, x::r1), (T::O, x::r1), (T::O, S("a"))]), S("b"), S(" "), x::r1, S("a"), S(" a"), S("b"), x::r0, Seq(&[(T::O, Opt(&x::r1)), (T::O, S("_")), (T::N, S("_")), (T::N, Opt(&S(" "))), (T::O, Opt(&S(" "))), (T::N, Opt(&x::r1)), (T::M, Opt(&S("_"))), (T::O, x::r2)]), x::r0, R('c', 'd'), S(" "), x::r2, R('a', 'c'), Seq(&[(T::O, x::r1), (T::M, x::r0), (T::O, S("_")), (T::M, S("b"))]), R('a', 'c'), S("ab"), Seq(&[(T::O, x::r0), (T::O, x::r2), (T::O, S("a")), (T::M, x::r2)]), Seq(&[(T::O, S(" ")), (T::M, x::r1), (T::O, Any)])]);
    _r4 "_" = S("a");
    r5 = Alt(&[Rep(&Seq(&[(T::O, S(" ")), (T::O, S(" _"))]), 1, INF, T::M), Seq(&[(T::M, Seq(&[(T::M, x::_r4), (T::M, S("a"))])), (T::N, x::r1), (T::M, Seq(&[(T::O, x::r1), (T::O, x::_r4), (T::M, x::r1), (T::O, S("a"))])), (T::O, Alt(&[S("a"), x::r1]))])]);
    r6 = S("_");
    r7 = Opt(&Alt(&[S("b"), Seq(&[(T::O, x::r0), (T::O, S("_")), (T::O, R('a', 'c'))]), Opt(&S("_a")), Seq(&[(T::O, Opt(&x::r5)), (T::O, Opt(&S("_"))), (T::N, Opt(&S("_"))), (T::O, x::r6), (T::O, Opt(&x::r1)), (T::M, x::_r4), (T::N, Opt(&x::r5)), (T::M, Opt(&S("b")))])]));
    r8 = S("_");
    _r9 "_" = Seq(&[(T::O, Rep(&Seq(&[(T::M, S("_")), (T::M, x::_r4), (T::O, S("b"))]), 3, 3, T::M)), (T::M, Rep(&Seq(&[(T::O, S("b")), (T::O, S("b")), (T::O, x::r6)]), 0, 1, T::M)), (T::O, Alt(&[Rep(&S("aa"), 0, INF, T::M), Rep(&x::r6, 2, 2, T::N)])), (T::O, Opt(&Alt(&[x::_r4, S("_")])))]);
    r10 = Opt(&Seq(&[(T::O, Opt(&S("b"))), (T::N, Seq(&[(T::O, x::r7), (T::O, S("_")), (T::O, R('a', 'c'))])), (T::O, Seq(&[(T::M, x::_r4), (T::M, x::r2), (T::O, R('c', 'd'))]))]));
    r11 = Seq(&[(T::M, Seq(&[(T::O, Alt(&[R('a', 'b'), S(" b"), S("a "), x::r3])), (T::N, Opt(&S("a"))), (T::O, Seq(&[(T::O, Opt(&S("a"))), (T::O, Opt(&S("b"))), (T::M, Opt(&x::r6)), (T::M, Opt(&x::r0)), (T::M, Opt(&x::r7)), (T::O, Opt(&x::r7)), (T::O, S("b")), (T::N, Opt(&R('a', 'c'))), (T::N, Opt(&x::r3)), (T::M, Opt(&x::r5)), (T::O, Opt(&Any)), (T::M, Opt(&x::r10)), (T::M, Opt(&R('a', 'a'))), (T::O, Opt(&S("b"))), (T::O, Opt(&x::r8)), (T::O, x::r3)]))])), (T::O, Seq(&[(T::O, S("a")), (T::M, Alt(&[x::r10, S("_")]))])), (T::N, Alt(&[Rep(&S("a"), 1, 3, T::M), S(" "), Opt(&S("a"))]))]);
    r12 = Seq(&[(T::O, Seq(&[(T::M, S("_")), (T::O, S(" ")), (T::N, S("b")), (T::M, S("a"))])), (T::O, Seq(&[(T::M, S(" ")), (T::N, S("a")), (T::O, x::r1)]))]);
    r13 = Seq(&[(T::N, Seq(&[(T::O, Opt(&Any)), (T::O, Seq(&[(T::O, S("_")), (T::M, x::r0), (T::M, x::r3)]))])), (T::O, Seq(&[(T::N, S(" ")), (T::O, Rep(&S("a"), 1, 1, T::O))])), (T::M, x::r12)]);
    r14 = Seq(&[(T::O, Rep(&S("_"), 0, INF, T::O)), (T::M, Opt(&x::r12)), (T::M, Seq(&[(T::M, x::r3), (T::O, S(" ")), (T::N, Any)]))]);
    r15 = Opt(&Rep(&Rep(&S("b"), 1, INF, T::O), 0, 2, T::O));
    r16 = Alt(&[Alt(&[S("a"), Seq(&[(T::M, x::r15), (T::O, S(" ")), (T::N, x::r7)]), Seq(&[(T::M, S("a")), (T::O, S("a"))]), Alt(&[S("b"), S("_"), S(" "), S("_")]), S(" _"), x::_r9]), Seq(&[(T::M, S("_")), (T::O, S(" ")), (T::O, S("a"))]), Opt(&x::_r9)]);
    _r17 "_" = Seq(&[(T::O, Opt(&S("a"))), (T::O, Opt(&x::r8)), (T::N, Opt(&x::r1)), (T::O, x::_r4), (T::N, Opt(&R('b', 'c'))), (T::M, Opt(&x::r16)), (T::O, Opt(&S("_"))), (T::M, Opt(&x::r5)), (T::M, Opt(&S("_b"))), (T::O, Opt(&S(" "))), (T::O, Opt(&S(" "))), (T::M, x::r2), (T::M, Opt(&S("b"))), (T::N, Opt(&S(" "))), (T::O, Opt(&S("__"))), (T::O, S(" ")), (T::O, Opt(&x::r0))]);
    _r18 "_" = S("a");
    r19 = Rep(&Seq(&[(T::M, Opt(&Any)), (T::N, S("bb")), (T::O, Opt(&S(" "))), (T::O, Opt(&S("_"))), (T::O, Opt(&x::r1)), (T::O, Opt(&R('a', 'c'))), (T::O, Any), (T::M, Opt(&S("_"))), (T::O, Opt(&Any)), (T::O, Opt(&Any)), (T::O, R('a', 'd')), (T::M, Opt(&S("_"))), (T::M, Opt(&S("_")))]), 0, 2, T::M);
}
suite! { mod trivia2 = r##"
~ = " " | "-"
^ = "_"+
r0 = "__"
r1 = "_" ~ 'a'..'b'
r2 = ('b'..'c')?
_r3 = _{ ((r0 ~ r0 ^ "b") | (r2 ^ r1) | (r0 ~ r2 ~ " ") | (r0 ^ 'a'..'a' ~ r1)) ^ ("b"~{1..3} - ("_"? ^ "a"? ^ pest::any - r0? ~ "a"?) ~ ("b" | r1 | r0 | "_")) }
r4 = "a"
r5 = ("b" ~ 'c'..'d' ^ 'a'..'c')~{1..2} | (('c'..'d'){2} ^ ("b" | r4 | "a")) | ("b"? | "a "~{..2}) | ("_" ^ ("b" | r2 | 'b'..'b' | r2) ^ ("b " | "a" | pest::any))
r6 = ('b'..'c')~{2..} | ('b'..'c' ~ r4 ~ 'a'..'a')
r7 = (('b'..'b' | "a" | r0 | "a ") ~ (r5 | "b" | " "))?
r8 = ("b" ^ "b" ~ r4) ~ (_r3 - r7 ~ "__")
r9 = r0{..} - r2 ^ (r5 | r0) ^ "_"
_r10 = _{ (r6 ~ (" " ~ " ")) ~ (r2 ~ 'a'..'c' ^ r9)~{1} }
r11 = " b"? - r0 ~ (pest::any)?
r12 = (r4? ~ " " ~ _r10 ~ "b"? ~ pest::any ^ "aa") ~ (("b" | 'a'..'b' | r9 | "b_") ^ ("_" ~ r0) ^ (r11 ~ "_" ^ "_") ^ (r1 ^ r0))
r13 = ((r9 ~ "_") - r1? ^ r4~{2}) ^ ('a'..'c' | r0 | r8)^{2} ~ (('a'..'c' ~ " " ~ "_") | (pest::any)? | (r12 ~ r7 - "a" ~ "a")) ^ (("b" ^ "_") ^ " "~+ - ('a'..'b'){..2})
r14 = ('c'..'c' - " a" ^ " ") ~ (r7 ^ "aa") ~ "_"
r15 = (("_" | "b " | " ") ~ (" " | _r10) ^ ('a'..'d' ~ r4 ^ r13 - 'a'..'c')) - (r2 ~ "b ")^{1..2} ~ ((" " | r2 | r11) ~ _r3 ~ (_r3 ~ "_" ~ "b" ^ " "))
r16 = _r10
r17 = (("_" | " " | "_") ^ (_r3 ~ "_")) ~ (r9? | (r0 ^ "_") | ('a'..'b')^{..} | (_r10 ~ "a")) ~ (" " ^ "b")^{3} ~ (r5 ^ " " - r11? - "_a"? ~ "b"?)
r18 = ("b"^{3})? - (r11 - r12){3} - (("b " | 'a'..'b' | "b") | " " | (" " ~ " " ~ "_ "))
r19 = "a_"
"##; opt = Some(Alt(&[S(" "), S("-")])); man = Some(Rep(&S("_"), 1, INF, T::N));
    r0 = S("__");
    r1 = Seq(&[(T::N, S("_")), (T::O, R('a', 'b'))]);
    r2 = Opt(&R('b', 'c'));
    _r3 "_" = Seq(&[(T::O, Alt(&[Seq(&[(T::M, x::r0), (T::O, x::r0), (T::M, S("b"))]), Seq(&[(T::O, x::r2), (T::M, x::r1)]), Seq(&[(T::M, x::r0), (T::O, x::r2), (T::O, S(" "))]), Seq(&[(T::M, x::r0), (T::M, R('a', 'a')), (T::O, x::r1)])])), (T::M, Seq(&[(T::O, Rep(&S("b"), 1, 3, T::O)), (T::N, Seq(&[(T::O, Opt(&S("_"))), (T::M, Opt(&S("a"))), (T::M, Any), (T::N, Opt(&x::r0)), (T::O, Opt(&S("a")))])), (T::O, Alt(&[S("b"), x::r1, x::r0, S("_")]))]))]);
    r4 = S("a");
    r5 = Alt(&[Rep(&Seq(&[(T::O, S("b")), (T::O, R('c', 'd')), (T::M, R('a', 'c'))]), 1, 2, T::O), Seq(&[(T::O, Rep(&R('c', 'd'), 2, 2, T::N)), (T::M, Alt(&[S("b"), x::r4, S("a")]))]), Alt(&[Opt(&S("b")), Rep(&S("a "), 0, 2, T::O)]), Seq(&[(T::O, S("_")), (T::M, Alt(&[S("b"), x::r2, R('b', 'b'), x::r2])), (T::M, Alt(&[S("b "), S("a"), Any]))])]);
    r6 = Alt(&[Rep(&R('b', 'c'), 2, INF, T::O), Seq(&[(T::O, R('b', 'c')), (T::O, x::r4), (T::O, R('a', 'a'))])]);
    r7 = Opt(&Seq(&[(T::O, Alt(&[R('b', 'b'), S("a"), x::r0, S("a ")])), (T::O, Alt(&[x::r5, S("b"), S(" ")]))]));
    r8 = Seq(&[(T::O, Seq(&[(T::N, S("b")), (T::M, S("b")), (T::O, x::r4)])), (T::O, Seq(&[(T::O, x::_r3), (T::N, x::r7), (T::O, S("__"))]))]);
    r9 = Seq(&[(T::O, Rep(&x::r0, 0, INF, T::N)), (T::N, x::r2), (T::M, Alt(&[x::r5, x::r0])), (T::M, S("_"))]);
    _r10 "_" = Seq(&[(T::M, Seq(&[(T::O, x::r6), (T::O, Seq(&[(T::O, S(" ")), (T::O, S(" "))]))])), (T::O, Rep(&Seq(&[(T::M, x::r2), (T::O, R('a', 'c')), (T::M, x::r9)]), 1, 1, T::O))]);
    r11 = Seq(&[(T::M, Opt(&S(" b"))), (T::N, x::r0), (T::O, Opt(&Any))]);
    r12 = Seq(&[(T::M, Seq(&[(T::O, Opt(&x::r4)), (T::O, S(" ")), (T::O, x::_r10), (T::O, Opt(&S("b"))), (T::O, Any), (T::M, S("aa"))])), (T::O, Seq(&[(T::O, Alt(&[S("b"), R('a', 'b'), x::r9, S("b_")])), (T::M, Seq(&[(T::O, S("_")), (T::O, x::r0)])), (T::M, Seq(&[(T::N, x::r11), (T::O, S("_")), (T::M, S("_"))])), (T::M, Seq(&[(T::M, x::r1), (T::M, x::r0)]))]))]);
    r13 = Seq(&[(T::N, Seq(&[(T::M, Seq(&[(T::N, x::r9), (T::O, S("_"))])), (T::N, Opt(&x::r1)), (T::M, Rep(&x::r4, 2, 2, T::O))])), (T::M, Rep(&Alt(&[R('a', 'c'), x::r0, x::r8]), 2, 2, T::M)), (T::O, Alt(&[Seq(&[(T::N, R('a', 'c')), (T::O, S(" ")), (T::O, S("_"))]), Opt(&Any), Seq(&[(T::O, x::r12), (T::O, x::r7), (T::N, S("a")), (T::O, S("a"))])])), (T::M, Seq(&[(T::M, Seq(&[(T::O, S("b")), (T::M, S("_"))])), (T::M, Rep(&S(" "), 1, INF, T::O)), (T::N, Rep(&R('a', 'b'), 0, 2, T::N))]))]);
    r14 = Seq(&[(T::O, Seq(&[(T::N, R('c', 'c')), (T::N, S(" a")), (T::M, S(" "))])), (T::O, Seq(&[(T::O, x::r7), (T::M, S("aa"))])), (T::O, S("_"))]);
    r15 = Seq(&[(T::O, Seq(&[(T::M, Alt(&[S("_"), S("b "), S(" ")])), (T::O, Alt(&[S(" "), x::_r10])), (T::M, Seq(&[(T::O, R('a', 'd')), (T::O, x::r4), (T::M, x::r13), (T::N, R('a', 'c'))]))])), (T::N, Rep(&Seq(&[(T::O, x::r2), (T::O, S("b "))]), 1, 2, T::M)), (T::O, Seq(&[(T::M, Alt(&[S(" "), x::r2, x::r11])), (T::O, x::_r3), (T::O, Seq(&[(T::N, x::_r3), (T::O, S("_")), (T::O, S("b")), (T::M, S(" "))]))]))]);
    r16 = x::_r10;
    r17 = Seq(&[(T::M, Seq(&[(T::N, Alt(&[S("_"), S(" "), S("_")])), (T::M, Seq(&[(T::N, x::_r3), (T::O, S("_"))]))])), (T::O, Alt(&[Opt(&x::r9), Seq(&[(T::O, x::r0), (T::M, S("_"))]), Rep(&R('a', 'b'), 0, INF, T::M), Seq(&[(T::O, x::_r10), (T::O, S("a"))])])), (T::O, Rep(&Seq(&[(T::M, S(" ")), (T::M, S("b"))]), 3, 3, T::M)), (T::O, Seq(&[(T::M, x::r5), (T::M, S(" ")), (T::N, Opt(&x::r11)), (T::N, Opt(&S("_a"))), (T::O, Opt(&S("b")))]))]);
    r18 = Seq(&[(T::O, Opt(&Rep(&S("b"), 3, 3, T::M))), (T::N, Rep(&Seq(&[(T::N, x::r11), (T::N, x::r12)]), 3, 3, T::N)), (T::N, Alt(&[Alt(&[S("b "), R('a', 'b'), S("b")]), S(" "), Seq(&[(T::N, S(" ")), (T::O, S(" ")), (T::O, S("_ "))])]))]);
    r19 = S("a_");
}
suite! { mod trivia3 = r##"
~ = " " | "-"
^ = "_"+
r0 = "_"
r1 = r0 ~ r0 - "b" ~ 'b'..'c'
_r2 = _{ "_ " ^ "_" }
r3 = (pest::any)~{0..1}
_r4 = _{ r0 | "a" | " " | "aa"? | r0 | (r1 ^ r0) | "_" | "ab"~{3} }
r5 = ("a" - 'a'..'a')^+
r6 = " "
_r7 = _{ ((r5 | " ") ~ " "^{1..2} - (pest::any ^ "a" ~ pest::any ~ r3)) ^ ((r5 - " " ^ 'a'..'a') ~ ('a'..'d' ^ r1 ^ "_" ^ " ") ~ "a_"?) ~ r0~{..2} }
r8 = (" " ~ ("b" ~ r3) ^ (_r2 - "b" ^ "b") ~ ("b" ~ _r7)) ~ ("b" - _r2 ^ "_"? ^ _r2 ^ "b"? - "aa"? ~ ('a'..'d')? ~ r5? ~ "_"? ^ "_"? ~ "_"? ^ _r2? ^ (pest::any)? - r5 ~ " "? ^ (pest::any)?)? ^ ("a" ^ "_"? ^ "a"? ^ (pest::any)? ^ "_"?)
r9 = ("_" ~ r0 ~ 'a'..'d' ^ " ")~{1..2} ~ ("_b" ~ r6 ^ " " - _r7)? ~ (_r2 | "b" | 'a'..'c' | "_")~{..}
_r10 = _{ (_r7 | ("aa" - 'a'..'c' ^ "_b") | "a" | "a"? | ('a'..'c' ^ "  ") | 'a'..'b' | "_" | (r1 | "_") | r3 | (r6 ^ " ") | _r4 | ('b'..'b')^{1..}) - r9 }
r11 = ("a" ^ r1 ^ "a" ^ r1) | "a"?
r12 = "b"
r13 = ("b" | "a")* ~ ("b_" | (r3 - "b" ~ "a") | r12 | r5^{1})
r14 = ("b" ^ " ")~{0..1}
_r15 = _{ ("_" ^ "_" ^ " "){2..} | ((r3 | _r4) | ("a" ~ "_") | ("b" ^ _r2 ~ " " ^ "a")) | ((r5 ~ "aa"? ~ ('a'..'c')? ~ ('a'..'c')? ~ _r10? ~ r1? ^ (pest::any)?) ^ (r1 | 'a'..'c' | "a" | "b")) }
r16 = r6? ^ "b"? - " " ~ ('b'..'c')? ^ " " ~ r14? - ('a'..'a')? ~ (pest::any)? ~ _r15? - "b"? ^ r11? ~ "_"? - r1 ~ "_"? ^ " "? ~ r1? - r9?
r17 = "b"?
_r18 = _{ ("__" - ("b" ^ r11)) ^ (r13? | r3?) ~ ("__" | 'a'..'d')? ^ ((r3? ^ "b"? ~ "a"? ~ "_"? - _r15 ^ r9? ~ _r7 - " "? ~ "b"? ^ "a"? ~ (pest::any)? ^ r12? ~ r9? ~ r0? - _r15? ~ r5? ~ r14?) | (_r7 ^ 'b'..'b' ~ "b") | (" a" ~ r17 ~ 'a'..'c')) }
r19 = ("_" | "a" | ("b" ^ "_" ^ r5 ^ "a_")) - (_r18 - "a" ^ "a")~{2..} ~ ((r6 | r13) | (" " | "a"))
"##; opt = Some(Alt(&[S(" "), S("-")])); man = Some(Rep(&S("_"), 1, INF, T::N));
    r0 = S("_");
    r1 = Seq(&[(T::O, x::r0), (T::O, x::r0), (T::N, S("b")), (T::O, R('b', 'c'))]);
    _r2 "_" = Seq(&[(T::O, S("_ ")), (T::M, S("_"))]);
    r3 = Rep(&Any, 0, 1, T::O);
    _r4 "_" = Alt(&[x::r0, S("a"), S(" "), Opt(&S("aa")), x::r0, Seq(&[(T::M, x::r1), (T::M, x::r0)]), S("_"), Rep(&S("ab"), 3, 3, T::O)]);
    r5 = Rep(&Seq(&[(T::M, S("a")), (T::N, R('a', 'a'))]), 1, INF, T::M);
    r6 = S(" ");
    _r7 "_" = Seq(&[(T::N, Seq(&[(T::O, Alt(&[x::r5, S(" ")])), (T::O, Rep(&S(" "), 1, 2, T::M)), (T::N, Seq(&[(T::O, Any), (T::M, S("a")), (T::O, Any), (T::O, x::r3)]))])), (T::M, Seq(&[(T::O, Seq(&[(T::O, x::r5), (T::N, S(" ")), (T::M, R('a', 'a'))])), (T::O, Seq(&[(T::O, R('a', 'd')), (T::M, x::r1), (T::M, S("_")), (T::M, S(" "))])), (T::O, Opt(&S("a_")))])), (T::O, Rep(&x::r0, 0, 2, T::O))]);
    r8 = Seq(&[(T::O, Seq(&[(T::O, S(" ")), (T::O, Seq(&[(T::O, S("b")), (T::O, x::r3)])), (T::M, Seq(&[(T::M, x::_r2), (T::N, S("b")), (T::M, S("b"))])), (T::O, Seq(&[(T::M, S("b")), (T::O, x::_r7)]))])), (T::O, Opt(&Seq(&[(T::N, S("b")), (T::N, x::_r2), (T::M, Opt(&S("_"))), (T::M, x::_r2), (T::M, Opt(&S("b"))), (T::N, Opt(&S("aa"))), (T::O, Opt(&R('a', 'd'))), (T::O, Opt(&x::r5)), (T::O, Opt(&S("_"))), (T::M, Opt(&S("_"))), (T::O, Opt(&S("_"))), (T::M, Opt(&x::_r2)), (T::M, Opt(&Any)), (T::N, x::r5), (T::O, Opt(&S(" "))), (T::M, Opt(&Any))]))), (T::M, Seq(&[(T::M, S("a")), (T::M, Opt(&S("_"))), (T::M, Opt(&S("a"))), (T::M, Opt(&Any)), (T::M, Opt(&S("_")))]))]);
    r9 = Seq(&[(T::M, Rep(&Seq(&[(T::N, S("_")), (T::O, x::r0), (T::O, R('a', 'd')), (T::M, S(" "))]), 1, 2, T::O)), (T::O, Opt(&Seq(&[(T::O, S("_b")), (T::O, x::r6), (T::M, S(" ")), (T::N, x::_r7)]))), (T::O, Rep(&Alt(&[x::_r2, S("b"), R('a', 'c'), S("_")]), 0, INF, T::O))]);
    _r10 "_" = Seq(&[(T::N, Alt(&[x::_r7, Seq(&[(T::M, S("aa")), (T::N, R('a', 'c')), (T::M, S("_b"))]), S("a"), Opt(&S("a")), Seq(&[(T::O, R('a', 'c')), (T::M, S("  "))]), R('a', 'b'), S("_"), Alt(&[x::r1, S("_")]), x::r3, Seq(&[(T::M, x::r6), (T::M, S(" "))]), x::_r4, Rep(&R('b', 'b'), 1, INF, T::M)])), (T::N, x::r9)]);
    r11 = Alt(&[Seq(&[(T::M, S("a")), (T::M, x::r1), (T::M, S("a")), (T::M, x::r1)]), Opt(&S("a"))]);
    r12 = S("b");
    r13 = Seq(&[(T::O, Rep(&Alt(&[S("b"), S("a")]), 0, INF, T::N)), (T::O, Alt(&[S("b_"), Seq(&[(T::M, x::r3), (T::N, S("b")), (T::O, S("a"))]), x::r12, Rep(&x::r5, 1, 1, T::M)]))]);
    r14 = Rep(&Seq(&[(T::M, S("b")), (T::M, S(" "))]), 0, 1, T::O);
    _r15 "_" = Alt(&[Rep(&Seq(&[(T::M, S("_")), (T::M, S("_")), (T::M, S(" "))]), 2, INF, T::N), Alt(&[Alt(&[x::r3, x::_r4]), Seq(&[(T::M, S("a")), (T::O, S("_"))]), Seq(&[(T::O, S("b")), (T::M, x::_r2), (T::O, S(" ")), (T::M, S("a"))])]), Seq(&[(T::O, Seq(&[(T::O, x::r5), (T::O, Opt(&S("aa"))), (T::O, Opt(&R('a', 'c'))), (T::O, Opt(&R('a', 'c'))), (T::O, Opt(&x::_r10)), (T::O, Opt(&x::r1)), (T::M, Opt(&Any))])), (T::M, Alt(&[x::r1, R('a', 'c'), S("a"), S("b")]))])]);
    r16 = Seq(&[(T::O, Opt(&x::r6)), (T::M, Opt(&S("b"))), (T::N, S(" ")), (T::O, Opt(&R('b', 'c'))), (T::M, S(" ")), (T::O, Opt(&x::r14)), (T::N, Opt(&R('a', 'a'))), (T::O, Opt(&Any)), (T::O, Opt(&x::_r15)), (T::N, Opt(&S("b"))), (T::M, Opt(&x::r11)), (T::O, Opt(&S("_"))), (T::N, x::r1), (T::O, Opt(&S("_"))), (T::M, Opt(&S(" "))), (T::O, Opt(&x::r1)), (T::N, Opt(&x::r9))]);
    r17 = Opt(&S("b"));
    _r18 "_" = Seq(&[(T::O, Seq(&[(T::M, S("__")), (T::N, Seq(&[(T::O, S("b")), (T::M, x::r11)]))])), (T::M, Alt(&[Opt(&x::r13), Opt(&x::r3)])), (T::O, Opt(&Alt(&[S("__"), R('a', 'd')]))), (T::M, Alt(&[Seq(&[(T::O, Opt(&x::r3)), (T::M, Opt(&S("b"))), (T::O, Opt(&S("a"))), (T::O, Opt(&S("_"))), (T::N, x::_r15), (T::M, Opt(&x::r9)), (T::O, x::_r7), (T::N, Opt(&S(" "))), (T::O, Opt(&S("b"))), (T::M, Opt(&S("a"))), (T::O, Opt(&Any)), (T::M, Opt(&x::r12)), (T::O, Opt(&x::r9)), (T::O, Opt(&x::r0)), (T::N, Opt(&x::_r15)), (T::O, Opt(&x::r5)), (T::O, Opt(&x::r14))]), Seq(&[(T::M, x::_r7), (T::M, R('b', 'b')), (T::O, S("b"))]), Seq(&[(T::M, S(" a")), (T::O, x::r17), (T::O, R('a', 'c'))])]))]);
    r19 = Seq(&[(T::M, Alt(&[S("_"), S("a"), Seq(&[(T::O, S("b")), (T::M, S("_")), (T::M, x::r5), (T::M, S("a_"))])])), (T::N, Rep(&Seq(&[(T::M, x::_r18), (T::N, S("a")), (T::M, S("a"))]), 2, INF, T::O)), (T::O, Alt(&[Alt(&[x::r6, x::r13]), Alt(&[S(" "), S("a")])]))]);
}
suite! { mod trivia4 = r##"
~ = " " | "-"
^ = "_"+
r0 = "a"
_r1 = _{ "b" - "_" ^ r0 }
r2 = " " - " "
_r3 = _{ ((" b" ^ "a") | r0? | "__"^{2..} | (('c'..'d' ~ pest::any) | (" " ~ r0) | ('a'..'d' ~ r0 ^ " b") | (" " ~ _r1) | _r1 | ("a" ~ r0 ^ r0) | (" " | 'a'..'c' | r0) | ("_" ~ 'b'..'b') | r0 | " " | r0 | 'b'..'d' | r2 | "b" | "a" | _r1 | _r1 | (r0 ~ r2 ~ _r1) | 'b'..'c' | r2)) | (" "? ^ r2 ^ (r0 ^ 'a'..'b' ~ 'c'..'d' - 'b'..'c')) }
r4 = (r0 ^ "a") | " b"~{1..3}
_r5 = _{ (("b" ~ "b" ~ _r3) ^ r0^{..2} ^ (r2 | " " | r2 | "ba")) | ((pest::any)? ~ ('c'..'d')? ~ r4~+ ~ ("_" ~ "b" ^ 'a'..'d' ^ "a")) | ((_r3 ^ "b" ^ _r3) ~ ("_" ~ "_") ~ ('a'..'b' ~ r4 ^ " ")) | (r4 ~ "a")? }
r6 = "a"~{1..2} ^ (_r1?)?
r7 = (" " | _r1)^{..} | (_r3? ^ (" " ^ "a" - " ") ~ (" _" ~ "a")) | ((_r3 ^ _r3 ~ r6) | ("a" ^ " b" ~ 'a'..'b')) | ("a" ~ r0 ~ 'c'..'c')~{1..2}
_r8 = _{ (r0{1..})~{1..2} ^ ((" " | " _" | "a" | pest::any) | "a"^{..2}) ~ ((r6 | r0 | r2 | "b ") ~ (r6 - " " ~ "b" ^ "ba")) ~ (r2~+ ^ "_a"? ~ (" a" | _r3 | r2 | 'c'..'c') ~ (pest::any ^ 'a'..'b' ~ " ")) }
r9 = ((r7 | pest::any | ("_" ^ _r8 ~ "b") | "_" | _r5 | ("_" | r0 | 'b'..'d' | r7) | _r3 | (_r8 ~ "ab" ~ _r5) | ('b'..'d')? | "a" | (_r3 - " ") | "b" | (pest::any | pest::any) | (" " ~ "b" ^ r6) | r4 | "b"{..2}) - ('a'..'c' ~ r2 ^ "a" ~ "_") ^ "b"{..})~{2}
r10 = ("a"~{2})? ~ (" b"~* | _r1?) ^ (('a'..'c')? | r2^{0..1})
r11 = (r9 ~ _r8)? - (r7? - pest::any) ~ _r3
r12 = (" " | r4)? | 'a'..'b' | "a" | (("b" ~ " ") | r6?)
r13 = ("b" ~ _r1)~{1..3} ^ (" "^{..2} ^ (" " ~ " " ^ "a" ~ _r8) - ("a" ~ "a" ~ "b" ~ "a"))
r14 = ((r0 | "a") | (_r3? ^ "a" - "a"? ~ r4? - " "? ^ (pest::any)? ^ "_b")) | ("b"+)~{1..3} | (("_" ^ "_" ~ "b") - "_"~{1..} ~ (" " ~ " ") ~ ("_ " ~ "_" ~ _r3))
r15 = (r11 ~ pest::any ~ "b" ^ r12) - (_r5 - " " ^ "_" ^ 'a'..'b')
r16 = "_" ~ (("_" ^ "a" ^ r13) ~ ("b" | _r3 | r15 | " ") ~ ('b'..'d' ~ _r8) ^ ('a'..'c' ~ _r3))
r17 = "_"
r18 = (r15~{1..})?
r19 = "_"~{1..2} - ("_" ~ _r8) ^ (" " | "_" | r17 | r18) ^ r7
"##; opt = Some(Alt(&[S(" "), S("-")])); man = Some(Rep(&S("_"), 1, INF, T::N));
    r0 = S("a");
    _r1 "_" = Seq(&[(T::O, S("b")), (T::N, S("_")), (T::M, x::r0)]);
    r2 = Seq(&[(T::O, S(" ")), (T::N, S(" "))]);
    _r3 "_" = Alt(&[Alt(&[Seq(&[(T::M, S(" b")), (T::M, S("a"))]), Opt(&x::r0), Rep(&S("__"), 2, INF, T::M), Alt(&[Seq(&[(T::M, R('c', 'd')), (T::O, Any)]), Seq(&[(T::O, S(" ")), (T::O, x::r0)]), Seq(&[(T::O, R('a', 'd')), (T::O, x::r0), (T::M, S(" b"))]), Seq(&[(T::M, S(" ")), (T::O, x::_r1)]), x::_r1, Seq(&[(T::O, S("a")), (T::O, x::r0), (T::M, x::r0)]), Alt(&[S(" "), R('a', 'c'), x::r0]), Seq(&[(T::O, S("_")), (T::O, R('b', 'b'))]), x::r0, S(" "), x::r0, R('b', 'd'), x::r2, S("b"), S("a"), x::_r1, x::_r1, Seq(&[(T::M, x::r0), (T::O, x::r2), (T::O, x::_r1)]), R('b', 'c'), x::r2])]), Seq(&[(T::O, Opt(&S(" "))), (T::M, x::r2), (T::M, Seq(&[(T::N, x::r0), (T::M, R('a', 'b')), (T::O, R('c', 'd')), (T::N, R('b', 'c'))]))])]);
    r4 = Alt(&[Seq(&[(T::O, x::r0), (T::M, S("a"))]), Rep(&S(" b"), 1, 3, T::O)]);
    _r5 "_" = Alt(&[Seq(&[(T::O, Seq(&[(T::N, S("b")), (T::O, S("b")), (T::O, x::_r3)])), (T::M, Rep(&x::r0, 0, 2, T::M)), (T::M, Alt(&[x::r2, S(" "), x::r2, S("ba")]))]), Seq(&[(T::O, Opt(&Any)), (T::O, Opt(&R('c', 'd'))), (T::O, Rep(&x::r4, 1, INF, T::O)), (T::O, Seq(&[(T::M, S("_")), (T::O, S("b")), (T::M, R('a', 'd')), (T::M, S("a"))]))]), Seq(&[(T::M, Seq(&[(T::M, x::_r3), (T::M, S("b")), (T::M, x::_r3)])), (T::O, Seq(&[(T::M, S("_")), (T::O, S("_"))])), (T::O, Seq(&[(T::M, R('a', 'b')), (T::O, x::r4), (T::M, S(" "))]))]), Opt(&Seq(&[(T::N, x::r4), (T::O, S("a"))]))]);
    r6 = Seq(&[(T::N, Rep(&S("a"), 1, 2, T::O)), (T::M, Opt(&Opt(&x::_r1)))]);
    r7 = Alt(&[Rep(&Alt(&[S(" "), x::_r1]), 0, INF, T::M), Seq(&[(T::M, Opt(&x::_r3)), (T::M, Seq(&[(T::O, S(" ")), (T::M, S("a")), (T::N, S(" "))])), (T::O, Seq(&[(T::O, S(" _")), (T::O, S("a"))]))]), Alt(&[Seq(&[(T::O, x::_r3), (T::M, x::_r3), (T::O, x::r6)]), Seq(&[(T::N, S("a")), (T::M, S(" b")), (T::O, R('a', 'b'))])]), Rep(&Seq(&[(T::M, S("a")), (T::O, x::r0), (T::O, R('c', 'c'))]), 1, 2, T::O)]);
    _r8 "_" = Seq(&[(T::O, Rep(&Rep(&x::r0, 1, INF, T::N), 1, 2, T::O)), (T::M, Alt(&[Alt(&[S(" "), S(" _"), S("a"), Any]), Rep(&S("a"), 0, 2, T::M)])), (T::O, Seq(&[(T::O, Alt(&[x::r6, x::r0, x::r2, S("b ")])), (T::O, Seq(&[(T::O, x::r6), (T::N, S(" ")), (T::O, S("b")), (T::M, S("ba"))]))])), (T::O, Seq(&[(T::N, Rep(&x::r2, 1, INF, T::O)), (T::M, Opt(&S("_a"))), (T::O, Alt(&[S(" a"), x::_r3, x::r2, R('c', 'c')])), (T::O, Seq(&[(T::N, Any), (T::M, R('a', 'b')), (T::O, S(" "))]))]))]);
    r9 = Rep(&Seq(&[(T::N, Alt(&[x::r7, Any, Seq(&[(T::O, S("_")), (T::M, x::_r8), (T::O, S("b"))]), S("_"), x::_r5, Alt(&[S("_"), x::r0, R('b', 'd'), x::r7]), x::_r3, Seq(&[(T::M, x::_r8), (T::O, S("ab")), (T::O, x::_r5)]), Opt(&R('b', 'd')), S("a"), Seq(&[(T::O, x::_r3), (T::N, S(" "))]), S("b"), Alt(&[Any, Any]), Seq(&[(T::N, S(" ")), (T::O, S("b")), (T::M, x::r6)]), x::r4, Rep(&S("b"), 0, 2, T::N)])), (T::N, Seq(&[(T::O, R('a', 'c')), (T::O, x::r2), (T::M, S("a")), (T::O, S("_"))])), (T::M, Rep(&S("b"), 0, INF, T::N))]), 2, 2, T::O);
    r10 = Seq(&[(T::O, Opt(&Rep(&S("a"), 2, 2, T::O))), (T::O, Alt(&[Rep(&S(" b"), 0, INF, T::O), Opt(&x::_r1)])), (T::M, Alt(&[Opt(&R('a', 'c')), Rep(&x::r2, 0, 1, T::M)]))]);
    r11 = Seq(&[(T::O, Opt(&Seq(&[(T::O, x::r9), (T::O, x::_r8)]))), (T::N, Seq(&[(T::M, Opt(&x::r7)), (T::N, Any)])), (T::O, x::_r3)]);
    r12 = Alt(&[Opt(&Alt(&[S(" "), x::r4])), R('a', 'b'), S("a"), Alt(&[Seq(&[(T::N, S("b")), (T::O, S(" "))]), Opt(&x::r6)])]);
    r13 = Seq(&[(T::M, Rep(&Seq(&[(T::O, S("b")), (T::O, x::_r1)]), 1, 3, T::O)), (T::M, Seq(&[(T::M, Rep(&S(" "), 0, 2, T::M)), (T::M, Seq(&[(T::M, S(" ")), (T::O, S(" ")), (T::M, S("a")), (T::O, x::_r8)])), (T::N, Seq(&[(T::O, S("a")), (T::O, S("a")), (T::O, S("b")), (T::O, S("a"))]))]))]);
    r14 = Alt(&[Alt(&[Alt(&[x::r0, S("a")]), Seq(&[(T::N, Opt(&x::_r3)), (T::M, S("a")), (T::N, Opt(&S("a"))), (T::O, Opt(&x::r4)), (T::N, Opt(&S(" "))), (T::M, Opt(&Any)), (T::M, S("_b"))])]), Rep(&Rep(&S("b"), 1, INF, T::N), 1, 3, T::O), Seq(&[(T::O, Seq(&[(T::O, S("_")), (T::M, S("_")), (T::O, S("b"))])), (T::N, Rep(&S("_"), 1, INF, T::O)), (T::O, Seq(&[(T::O, S(" ")), (T::O, S(" "))])), (T::O, Seq(&[(T::O, S("_ ")), (T::O, S("_")), (T::O, x::_r3)]))])]);
    r15 = Seq(&[(T::M, Seq(&[(T::O, x::r11), (T::O, Any), (T::O, S("b")), (T::M, x::r12)])), (T::N, Seq(&[(T::M, x::_r5), (T::N, S(" ")), (T::M, S("_")), (T::M, R('a', 'b'))]))]);
    r16 = Seq(&[(T::O, S("_")), (T::O, Seq(&[(T::O, Seq(&[(T::O, S("_")), (T::M, S("a")), (T::M, x::r13)])), (T::O, Alt(&[S("b"), x::_r3, x::r15, S(" ")])), (T::O, Seq(&[(T::M, R('b', 'd')), (T::O, x::_r8)])), (T::M, Seq(&[(T::M, R('a', 'c')), (T::O, x::_r3)]))]))]);
    r17 = S("_");
    r18 = Opt(&Rep(&x::r15, 1, INF, T::O));
    r19 = Seq(&[(T::O, Rep(&S("_"), 1, 2, T::O)), (T::N, Seq(&[(T::O, S("_")), (T::O, x::_r8)])), (T::M, Alt(&[S(" "), S("_"), x::r17, x::r18])), (T::M, x::r7)]);
}
fn any_trivia() -> usize { choose(100) }
#[allow(unused)] fn run_trivia(k: usize, s: &'static str) { match k / 20 { 0 => { trivia0::run(k % 20, s); } 1 => { trivia1::run(k % 20, s); } 2 => { trivia2::run(k % 20, s); } 3 => { trivia3::run(k % 20, s); } 4 => { trivia4::run(k % 20, s); } _ => {} } }
#[allow(unused)] fn visit_trivia<V: Visit>(k: usize, v: &mut V) { match k / 20 { 0 => trivia0::visit(k % 20, v), 1 => trivia1::visit(k % 20, v), 2 => trivia2::visit(k % 20, v), 3 => trivia3::visit(k % 20, v), 4 => trivia4::visit(k % 20, v), _ => {} } }
