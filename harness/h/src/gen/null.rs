// Written by bin/mkgen.py.
suite! { mod null0 = r##"
~ = " "
^ = "_"
e = ""
o = "a"?
m = "b"*
l = &("a")
q00 = (e - e - "c"){..3}
q01 = (e ~ o - "."){1..2}
q02 = (e - m - "c"){..3}
q03 = (e - l - ".")+
q10 = (o - e - ".")+
q11 = (o - o - "c"){..3}
q12 = (o - m - ".")*
q13 = (o - l - "c"){1..2}
q20 = (m ~ e - "."){1..2}
q21 = (m ~ o - ".")+
q22 = (m ~ m - "c")*
q23 = (m ~ l - "c"){..3}
q30 = (l - e - "c")*
q31 = (l - o - ".")~{1..2}
q32 = (l ~ m - ".")*
q33 = (l ~ l - "c")~{..3}
r20 = "." - o - m
r21 = (q21{3})^{1..2}
r22 = (q21+)~*
r23 = q21
r24 = (q21~{1})^*
r25 = !(r24)
r26 = "."{0..1}
r27 = (r20{3} - ("." | "c" | q22) - r20{..2})~{0..1}
r28 = "c" - m ~ l
r29 = q22
"##; opt = Some(S(" ")); man = Some(S("_"));
    e = S("");
    o = Opt(&S("a"));
    m = Rep(&S("b"), 0, INF, T::N);
    l = Pos(&S("a"));
    q00 = Rep(&Seq(&[(T::N, x::e), (T::N, x::e), (T::N, S("c"))]), 0, 3, T::N);
    q01 = Rep(&Seq(&[(T::N, x::e), (T::O, x::o), (T::N, S("."))]), 1, 2, T::N);
    q02 = Rep(&Seq(&[(T::N, x::e), (T::N, x::m), (T::N, S("c"))]), 0, 3, T::N);
    q03 = Rep(&Seq(&[(T::N, x::e), (T::N, x::l), (T::N, S("."))]), 1, INF, T::N);
    q10 = Rep(&Seq(&[(T::N, x::o), (T::N, x::e), (T::N, S("."))]), 1, INF, T::N);
    q11 = Rep(&Seq(&[(T::N, x::o), (T::N, x::o), (T::N, S("c"))]), 0, 3, T::N);
    q12 = Rep(&Seq(&[(T::N, x::o), (T::N, x::m), (T::N, S("."))]), 0, INF, T::N);
    q13 = Rep(&Seq(&[(T::N, x::o), (T::N, x::l), (T::N, S("c"))]), 1, 2, T::N);
    q20 = Rep(&Seq(&[(T::N, x::m), (T::O, x::e), (T::N, S("."))]), 1, 2, T::N);
    q21 = Rep(&Seq(&[(T::N, x::m), (T::O, x::o), (T::N, S("."))]), 1, INF, T::N);
    q22 = Rep(&Seq(&[(T::N, x::m), (T::O, x::m), (T::N, S("c"))]), 0, INF, T::N);
    q23 = Rep(&Seq(&[(T::N, x::m), (T::O, x::l), (T::N, S("c"))]), 0, 3, T::N);
    q30 = Rep(&Seq(&[(T::N, x::l), (T::N, x::e), (T::N, S("c"))]), 0, INF, T::N);
    q31 = Rep(&Seq(&[(T::N, x::l), (T::N, x::o), (T::N, S("."))]), 1, 2, T::O);
    q32 = Rep(&Seq(&[(T::N, x::l), (T::O, x::m), (T::N, S("."))]), 0, INF, T::N);
    q33 = Rep(&Seq(&[(T::N, x::l), (T::O, x::l), (T::N, S("c"))]), 0, 3, T::O);
    r20 = Seq(&[(T::N, S(".")), (T::N, x::o), (T::N, x::m)]);
    r21 = Rep(&Rep(&x::q21, 3, 3, T::N), 1, 2, T::M);
    r22 = Rep(&Rep(&x::q21, 1, INF, T::N), 0, INF, T::O);
    r23 = x::q21;
    r24 = Rep(&Rep(&x::q21, 1, 1, T::O), 0, INF, T::M);
    r25 = Neg(&x::r24);
    r26 = Rep(&S("."), 0, 1, T::N);
    r27 = Rep(&Seq(&[(T::N, Rep(&x::r20, 3, 3, T::N)), (T::N, Alt(&[S("."), S("c"), x::q22])), (T::N, Rep(&x::r20, 0, 2, T::N))]), 0, 1, T::O);
    r28 = Seq(&[(T::N, S("c")), (T::N, x::m), (T::O, x::l)]);
    r29 = x::q22;
}
suite! { mod null1 = r##"
~ = " "
^ = "_"
e = ""
o = "a"?
m = "b"*
l = &("a")
q00 = (e - e - ".")+
q01 = (e - o - ".")*
q02 = (e ~ m - ".")~*
q03 = (e - l - ".")~+
q10 = (o ~ e - "c")+
q11 = (o ~ o - ".")~+
q12 = (o ~ m - ".")~+
q13 = (o - l - ".")+
q20 = (m - e - ".")+
q21 = (m - o - "c")~*
q22 = (m ~ m - "."){..3}
q23 = (m ~ l - "."){1..2}
q30 = (l ~ e - "c"){..3}
q31 = (l ~ o - ".")~+
q32 = (l - m - ".")*
q33 = (l ~ l - "."){..3}
_r20 = _{ "c" ~ q12 - q12 ^ "c" }
r21 = ((q00 | "c" | e) - "."){1..3}
_r22 = _{ "."^+ ^ ((q20 - q33 ~ q12 ~ l) - q03? - ("." - q10 - r21) - (q01 ^ q21 - "c")) ~ (_r20^+)^{2..} ~ ((q23 | o) - q03{0..1} - q20{3}) }
r23 = (r21 - m ~ q10 ^ q10) | !(q10) | "c"+
r24 = &(r23 - q22 - q12)
r25 = (q10 | r21){1..3} | (q20 ^ q21 ^ q13 ~ o)~*
r26 = "c"^{..} - (r25 ~ r25 ~ o ~ _r22)
r27 = "c"? - (q00 ^ q03) ^ (r25 - r26)
_r28 = _{ r23 - "." - q20 ~ q30 }
_r29 = _{ q00 - r21 }
"##; opt = Some(S(" ")); man = Some(S("_"));
    e = S("");
    o = Opt(&S("a"));
    m = Rep(&S("b"), 0, INF, T::N);
    l = Pos(&S("a"));
    q00 = Rep(&Seq(&[(T::N, x::e), (T::N, x::e), (T::N, S("."))]), 1, INF, T::N);
    q01 = Rep(&Seq(&[(T::N, x::e), (T::N, x::o), (T::N, S("."))]), 0, INF, T::N);
    q02 = Rep(&Seq(&[(T::N, x::e), (T::O, x::m), (T::N, S("."))]), 0, INF, T::O);
    q03 = Rep(&Seq(&[(T::N, x::e), (T::N, x::l), (T::N, S("."))]), 1, INF, T::O);
    q10 = Rep(&Seq(&[(T::N, x::o), (T::O, x::e), (T::N, S("c"))]), 1, INF, T::N);
    q11 = Rep(&Seq(&[(T::N, x::o), (T::O, x::o), (T::N, S("."))]), 1, INF, T::O);
    q12 = Rep(&Seq(&[(T::N, x::o), (T::O, x::m), (T::N, S("."))]), 1, INF, T::O);
    q13 = Rep(&Seq(&[(T::N, x::o), (T::N, x::l), (T::N, S("."))]), 1, INF, T::N);
    q20 = Rep(&Seq(&[(T::N, x::m), (T::N, x::e), (T::N, S("."))]), 1, INF, T::N);
    q21 = Rep(&Seq(&[(T::N, x::m), (T::N, x::o), (T::N, S("c"))]), 0, INF, T::O);
    q22 = Rep(&Seq(&[(T::N, x::m), (T::O, x::m), (T::N, S("."))]), 0, 3, T::N);
    q23 = Rep(&Seq(&[(T::N, x::m), (T::O, x::l), (T::N, S("."))]), 1, 2, T::N);
    q30 = Rep(&Seq(&[(T::N, x::l), (T::O, x::e), (T::N, S("c"))]), 0, 3, T::N);
    q31 = Rep(&Seq(&[(T::N, x::l), (T::O, x::o), (T::N, S("."))]), 1, INF, T::O);
    q32 = Rep(&Seq(&[(T::N, x::l), (T::N, x::m), (T::N, S("."))]), 0, INF, T::N);
    q33 = Rep(&Seq(&[(T::N, x::l), (T::O, x::l), (T::N, S("."))]), 0, 3, T::N);
    _r20 "_" = Seq(&[(T::N, S("c")), (T::O, x::q12), (T::N, x::q12), (T::M, S("c"))]);
    r21 = Rep(&Seq(&[(T::N, Alt(&[x::q00, S("c"), x::e])), (T::N, S("."))]), 1, 3, T::N);
    _r22 "_" = Seq(&[(T::O, Rep(&S("."), 1, INF, T::M)), (T::M, Seq(&[(T::M, Seq(&[(T::N, x::q20), (T::N, x::q33), (T::O, x::q12), (T::O, x::l)])), (T::N, Opt(&x::q03)), (T::N, Seq(&[(T::N, S(".")), (T::N, x::q10), (T::N, x::r21)])), (T::N, Seq(&[(T::N, x::q01), (T::M, x::q21), (T::N, S("c"))]))])), (T::O, Rep(&Rep(&x::_r20, 1, INF, T::M), 2, INF, T::M)), (T::O, Seq(&[(T::N, Alt(&[x::q23, x::o])), (T::N, Rep(&x::q03, 0, 1, T::N)), (T::N, Rep(&x::q20, 3, 3, T::N))]))]);
    r23 = Alt(&[Seq(&[(T::O, x::r21), (T::N, x::m), (T::O, x::q10), (T::M, x::q10)]), Neg(&x::q10), Rep(&S("c"), 1, INF, T::N)]);
    r24 = Pos(&Seq(&[(T::N, x::r23), (T::N, x::q22), (T::N, x::q12)]));
    r25 = Alt(&[Rep(&Alt(&[x::q10, x::r21]), 1, 3, T::N), Rep(&Seq(&[(T::N, x::q20), (T::M, x::q21), (T::M, x::q13), (T::O, x::o)]), 0, INF, T::O)]);
    r26 = Seq(&[(T::N, Rep(&S("c"), 0, INF, T::M)), (T::N, Seq(&[(T::N, x::r25), (T::O, x::r25), (T::O, x::o), (T::O, x::_r22)]))]);
    r27 = Seq(&[(T::O, Opt(&S("c"))), (T::N, Seq(&[(T::N, x::q00), (T::M, x::q03)])), (T::M, Seq(&[(T::N, x::r25), (T::N, x::r26)]))]);
    _r28 "_" = Seq(&[(T::N, x::r23), (T::N, S(".")), (T::N, x::q20), (T::O, x::q30)]);
    _r29 "_" = Seq(&[(T::N, x::q00), (T::N, x::r21)]);
}
suite! { mod null2 = r##"
~ = " "
^ = "_"
e = ""
o = "a"?
m = "b"*
l = &("a")
q00 = (e ~ e - "c")*
q01 = (e - o - ".")+
q02 = (e ~ m - "c"){1..2}
q03 = (e ~ l - ".")~{..3}
q10 = (o ~ e - ".")~{..3}
q11 = (o - o - ".")~+
q12 = (o ~ m - "c")~{1..2}
q13 = (o - l - "c")~*
q20 = (m - e - ".")~*
q21 = (m ~ o - ".")+
q22 = (m - m - "."){..3}
q23 = (m ~ l - ".")+
q30 = (l - e - "."){1..2}
q31 = (l ~ o - ".")*
q32 = (l ~ m - ".")~{1..2}
q33 = (l - l - "c")*
r20 = q02 | q03 | q31 | "c"
r21 = q13 ^ q20
r22 = (q02 | q30) - q11{2..}
_r23 = _{ (q21^* ~ q23{1..})~{..2} }
r24 = (m - q21 - "c") ~ r22{2..} ~ (l - l ~ q01) - q01^+
r25 = "."{1..2} - q31 - "c"*
r26 = (q33 - r24 - m){..2}
r27 = "c" ^ q31
r28 = r20 ~ (q23 | q02 | q30)
r29 = "c"{3}
"##; opt = Some(S(" ")); man = Some(S("_"));
    e = S("");
    o = Opt(&S("a"));
    m = Rep(&S("b"), 0, INF, T::N);
    l = Pos(&S("a"));
    q00 = Rep(&Seq(&[(T::N, x::e), (T::O, x::e), (T::N, S("c"))]), 0, INF, T::N);
    q01 = Rep(&Seq(&[(T::N, x::e), (T::N, x::o), (T::N, S("."))]), 1, INF, T::N);
    q02 = Rep(&Seq(&[(T::N, x::e), (T::O, x::m), (T::N, S("c"))]), 1, 2, T::N);
    q03 = Rep(&Seq(&[(T::N, x::e), (T::O, x::l), (T::N, S("."))]), 0, 3, T::O);
    q10 = Rep(&Seq(&[(T::N, x::o), (T::O, x::e), (T::N, S("."))]), 0, 3, T::O);
    q11 = Rep(&Seq(&[(T::N, x::o), (T::N, x::o), (T::N, S("."))]), 1, INF, T::O);
    q12 = Rep(&Seq(&[(T::N, x::o), (T::O, x::m), (T::N, S("c"))]), 1, 2, T::O);
    q13 = Rep(&Seq(&[(T::N, x::o), (T::N, x::l), (T::N, S("c"))]), 0, INF, T::O);
    q20 = Rep(&Seq(&[(T::N, x::m), (T::N, x::e), (T::N, S("."))]), 0, INF, T::O);
    q21 = Rep(&Seq(&[(T::N, x::m), (T::O, x::o), (T::N, S("."))]), 1, INF, T::N);
    q22 = Rep(&Seq(&[(T::N, x::m), (T::N, x::m), (T::N, S("."))]), 0, 3, T::N);
    q23 = Rep(&Seq(&[(T::N, x::m), (T::O, x::l), (T::N, S("."))]), 1, INF, T::N);
    q30 = Rep(&Seq(&[(T::N, x::l), (T::N, x::e), (T::N, S("."))]), 1, 2, T::N);
    q31 = Rep(&Seq(&[(T::N, x::l), (T::O, x::o), (T::N, S("."))]), 0, INF, T::N);
    q32 = Rep(&Seq(&[(T::N, x::l), (T::O, x::m), (T::N, S("."))]), 1, 2, T::O);
    q33 = Rep(&Seq(&[(T::N, x::l), (T::N, x::l), (T::N, S("c"))]), 0, INF, T::N);
    r20 = Alt(&[x::q02, x::q03, x::q31, S("c")]);
    r21 = Seq(&[(T::N, x::q13), (T::M, x::q20)]);
    r22 = Seq(&[(T::N, Alt(&[x::q02, x::q30])), (T::N, Rep(&x::q11, 2, INF, T::N))]);
    _r23 "_" = Rep(&Seq(&[(T::N, Rep(&x::q21, 0, INF, T::M)), (T::O, Rep(&x::q23, 1, INF, T::N))]), 0, 2, T::O);
    r24 = Seq(&[(T::N, Seq(&[(T::N, x::m), (T::N, x::q21), (T::N, S("c"))])), (T::O, Rep(&x::r22, 2, INF, T::N)), (T::O, Seq(&[(T::N, x::l), (T::N, x::l), (T::O, x::q01)])), (T::N, Rep(&x::q01, 1, INF, T::M))]);
    r25 = Seq(&[(T::N, Rep(&S("."), 1, 2, T::N)), (T::N, x::q31), (T::N, Rep(&S("c"), 0, INF, T::N))]);
    r26 = Rep(&Seq(&[(T::N, x::q33), (T::N, x::r24), (T::N, x::m)]), 0, 2, T::N);
    r27 = Seq(&[(T::N, S("c")), (T::M, x::q31)]);
    r28 = Seq(&[(T::N, x::r20), (T::O, Alt(&[x::q23, x::q02, x::q30]))]);
    r29 = Rep(&S("c"), 3, 3, T::N);
}
fn any_null() -> usize { choose(90) }
#[allow(unused)] fn run_null(k: usize, s: &'static str) { match k / 30 { 0 => { null0::run(k % 30, s); } 1 => { null1::run(k % 30, s); } 2 => { null2::run(k % 30, s); } _ => {} } }
#[allow(unused)] fn visit_null<V: Visit>(k: usize, v: &mut V) { match k / 30 { 0 => null0::visit(k % 30, v), 1 => null1::visit(k % 30, v), 2 => null2::visit(k % 30, v), _ => {} } }
