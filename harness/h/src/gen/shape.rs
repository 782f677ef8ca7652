// Written by bin/mkgen.py.
suite! { mod shape0 = r##"
~ = " "
^ = "_"
a = "a"
b = "b"
s00 = ((a?)?)?
s01 = (&(a?))?
s02 = (a? | b)?
s03 = (a? - ".")?
s04 = (("," - a?)*)?
s10 = &((a?)?)
s11 = &(&(a?))
s12 = &(a? | b)
s13 = &(a? - ".")
s14 = &(("," - a?)*)
s20 = (a?)? | b
s21 = &(a?) | b
s22 = (a? | b) | b
s23 = (a? - ".") | b
s24 = ("," - a?)* | b
s30 = (a?)? - "."
s31 = &(a?) - "."
s32 = (a? | b) - "."
s33 = (a? - ".") - "."
s34 = ("," - a?)* - "."
s40 = ("," - (a?)?)*
s41 = ("," - &(a?))*
s42 = ("," - (a? | b))*
s43 = ("," - (a? - "."))*
s44 = ("," - ("," - a?)*)*
"##; opt = Some(S(" ")); man = Some(S("_"));
    a = S("a");
    b = S("b");
    s00 = Opt(&Opt(&Opt(&x::a)));
    s01 = Opt(&Pos(&Opt(&x::a)));
    s02 = Opt(&Alt(&[Opt(&x::a), x::b]));
    s03 = Opt(&Seq(&[(T::N, Opt(&x::a)), (T::N, S("."))]));
    s04 = Opt(&Rep(&Seq(&[(T::N, S(",")), (T::N, Opt(&x::a))]), 0, INF, T::N));
    s10 = Pos(&Opt(&Opt(&x::a)));
    s11 = Pos(&Pos(&Opt(&x::a)));
    s12 = Pos(&Alt(&[Opt(&x::a), x::b]));
    s13 = Pos(&Seq(&[(T::N, Opt(&x::a)), (T::N, S("."))]));
    s14 = Pos(&Rep(&Seq(&[(T::N, S(",")), (T::N, Opt(&x::a))]), 0, INF, T::N));
    s20 = Alt(&[Opt(&Opt(&x::a)), x::b]);
    s21 = Alt(&[Pos(&Opt(&x::a)), x::b]);
    s22 = Alt(&[Alt(&[Opt(&x::a), x::b]), x::b]);
    s23 = Alt(&[Seq(&[(T::N, Opt(&x::a)), (T::N, S("."))]), x::b]);
    s24 = Alt(&[Rep(&Seq(&[(T::N, S(",")), (T::N, Opt(&x::a))]), 0, INF, T::N), x::b]);
    s30 = Seq(&[(T::N, Opt(&Opt(&x::a))), (T::N, S("."))]);
    s31 = Seq(&[(T::N, Pos(&Opt(&x::a))), (T::N, S("."))]);
    s32 = Seq(&[(T::N, Alt(&[Opt(&x::a), x::b])), (T::N, S("."))]);
    s33 = Seq(&[(T::N, Seq(&[(T::N, Opt(&x::a)), (T::N, S("."))])), (T::N, S("."))]);
    s34 = Seq(&[(T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, Opt(&x::a))]), 0, INF, T::N)), (T::N, S("."))]);
    s40 = Rep(&Seq(&[(T::N, S(",")), (T::N, Opt(&Opt(&x::a)))]), 0, INF, T::N);
    s41 = Rep(&Seq(&[(T::N, S(",")), (T::N, Pos(&Opt(&x::a)))]), 0, INF, T::N);
    s42 = Rep(&Seq(&[(T::N, S(",")), (T::N, Alt(&[Opt(&x::a), x::b]))]), 0, INF, T::N);
    s43 = Rep(&Seq(&[(T::N, S(",")), (T::N, Seq(&[(T::N, Opt(&x::a)), (T::N, S("."))]))]), 0, INF, T::N);
    s44 = Rep(&Seq(&[(T::N, S(",")), (T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, Opt(&x::a))]), 0, INF, T::N))]), 0, INF, T::N);
}
sp!(shape0: a b s00 s01 s02 s03 s04 s10 s11 s12 s13 s14 s20 s21 s22 s23 s24 s30 s31 s32 s33 s34 s40 s41 s42 s43 s44;);
fn shape0_parts(k: usize, s: &'static str) { match k {
    2 => accessors_of!(shape0, s00: a; s),
    3 => accessors_of!(shape0, s01: a; s),
    4 => accessors_of!(shape0, s02: a b; s),
    5 => accessors_of!(shape0, s03: a; s),
    6 => accessors_of!(shape0, s04: a; s),
    7 => accessors_of!(shape0, s10: a; s),
    8 => accessors_of!(shape0, s11: a; s),
    9 => accessors_of!(shape0, s12: a b; s),
    10 => accessors_of!(shape0, s13: a; s),
    11 => accessors_of!(shape0, s14: a; s),
    12 => accessors_of!(shape0, s20: a b; s),
    13 => accessors_of!(shape0, s21: a b; s),
    14 => accessors_of!(shape0, s22: a b; s),
    15 => accessors_of!(shape0, s23: a b; s),
    16 => accessors_of!(shape0, s24: a b; s),
    17 => accessors_of!(shape0, s30: a; s),
    18 => accessors_of!(shape0, s31: a; s),
    19 => accessors_of!(shape0, s32: a b; s),
    20 => accessors_of!(shape0, s33: a; s),
    21 => accessors_of!(shape0, s34: a; s),
    22 => accessors_of!(shape0, s40: a; s),
    23 => accessors_of!(shape0, s41: a; s),
    24 => accessors_of!(shape0, s42: a b; s),
    25 => accessors_of!(shape0, s43: a; s),
    26 => accessors_of!(shape0, s44: a; s),
    _ => {}
} }
suite! { mod shape1 = r##"
~ = " "
^ = "_"
a = "a"
b = "b"
s00 = ((&(a))?)?
s01 = (&(&(a)))?
s02 = (&(a) | b)?
s03 = (&(a) - ".")?
s04 = (("," - &(a))*)?
s10 = &((&(a))?)
s11 = &(&(&(a)))
s12 = &(&(a) | b)
s13 = &(&(a) - ".")
s14 = &(("," - &(a))*)
s20 = (&(a))? | b
s21 = &(&(a)) | b
s22 = (&(a) | b) | b
s23 = (&(a) - ".") | b
s24 = ("," - &(a))* | b
s30 = (&(a))? - "."
s31 = &(&(a)) - "."
s32 = (&(a) | b) - "."
s33 = (&(a) - ".") - "."
s34 = ("," - &(a))* - "."
s40 = ("," - (&(a))?)*
s41 = ("," - &(&(a)))*
s42 = ("," - (&(a) | b))*
s43 = ("," - (&(a) - "."))*
s44 = ("," - ("," - &(a))*)*
"##; opt = Some(S(" ")); man = Some(S("_"));
    a = S("a");
    b = S("b");
    s00 = Opt(&Opt(&Pos(&x::a)));
    s01 = Opt(&Pos(&Pos(&x::a)));
    s02 = Opt(&Alt(&[Pos(&x::a), x::b]));
    s03 = Opt(&Seq(&[(T::N, Pos(&x::a)), (T::N, S("."))]));
    s04 = Opt(&Rep(&Seq(&[(T::N, S(",")), (T::N, Pos(&x::a))]), 0, INF, T::N));
    s10 = Pos(&Opt(&Pos(&x::a)));
    s11 = Pos(&Pos(&Pos(&x::a)));
    s12 = Pos(&Alt(&[Pos(&x::a), x::b]));
    s13 = Pos(&Seq(&[(T::N, Pos(&x::a)), (T::N, S("."))]));
    s14 = Pos(&Rep(&Seq(&[(T::N, S(",")), (T::N, Pos(&x::a))]), 0, INF, T::N));
    s20 = Alt(&[Opt(&Pos(&x::a)), x::b]);
    s21 = Alt(&[Pos(&Pos(&x::a)), x::b]);
    s22 = Alt(&[Alt(&[Pos(&x::a), x::b]), x::b]);
    s23 = Alt(&[Seq(&[(T::N, Pos(&x::a)), (T::N, S("."))]), x::b]);
    s24 = Alt(&[Rep(&Seq(&[(T::N, S(",")), (T::N, Pos(&x::a))]), 0, INF, T::N), x::b]);
    s30 = Seq(&[(T::N, Opt(&Pos(&x::a))), (T::N, S("."))]);
    s31 = Seq(&[(T::N, Pos(&Pos(&x::a))), (T::N, S("."))]);
    s32 = Seq(&[(T::N, Alt(&[Pos(&x::a), x::b])), (T::N, S("."))]);
    s33 = Seq(&[(T::N, Seq(&[(T::N, Pos(&x::a)), (T::N, S("."))])), (T::N, S("."))]);
    s34 = Seq(&[(T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, Pos(&x::a))]), 0, INF, T::N)), (T::N, S("."))]);
    s40 = Rep(&Seq(&[(T::N, S(",")), (T::N, Opt(&Pos(&x::a)))]), 0, INF, T::N);
    s41 = Rep(&Seq(&[(T::N, S(",")), (T::N, Pos(&Pos(&x::a)))]), 0, INF, T::N);
    s42 = Rep(&Seq(&[(T::N, S(",")), (T::N, Alt(&[Pos(&x::a), x::b]))]), 0, INF, T::N);
    s43 = Rep(&Seq(&[(T::N, S(",")), (T::N, Seq(&[(T::N, Pos(&x::a)), (T::N, S("."))]))]), 0, INF, T::N);
    s44 = Rep(&Seq(&[(T::N, S(",")), (T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, Pos(&x::a))]), 0, INF, T::N))]), 0, INF, T::N);
}
sp!(shape1: a b s00 s01 s02 s03 s04 s10 s11 s12 s13 s14 s20 s21 s22 s23 s24 s30 s31 s32 s33 s34 s40 s41 s42 s43 s44;);
fn shape1_parts(k: usize, s: &'static str) { match k {
    2 => accessors_of!(shape1, s00: a; s),
    3 => accessors_of!(shape1, s01: a; s),
    4 => accessors_of!(shape1, s02: a b; s),
    5 => accessors_of!(shape1, s03: a; s),
    6 => accessors_of!(shape1, s04: a; s),
    7 => accessors_of!(shape1, s10: a; s),
    8 => accessors_of!(shape1, s11: a; s),
    9 => accessors_of!(shape1, s12: a b; s),
    10 => accessors_of!(shape1, s13: a; s),
    11 => accessors_of!(shape1, s14: a; s),
    12 => accessors_of!(shape1, s20: a b; s),
    13 => accessors_of!(shape1, s21: a b; s),
    14 => accessors_of!(shape1, s22: a b; s),
    15 => accessors_of!(shape1, s23: a b; s),
    16 => accessors_of!(shape1, s24: a b; s),
    17 => accessors_of!(shape1, s30: a; s),
    18 => accessors_of!(shape1, s31: a; s),
    19 => accessors_of!(shape1, s32: a b; s),
    20 => accessors_of!(shape1, s33: a; s),
    21 => accessors_of!(shape1, s34: a; s),
    22 => accessors_of!(shape1, s40: a; s),
    23 => accessors_of!(shape1, s41: a; s),
    24 => accessors_of!(shape1, s42: a b; s),
    25 => accessors_of!(shape1, s43: a; s),
    26 => accessors_of!(shape1, s44: a; s),
    _ => {}
} }
suite! { mod shape2 = r##"
~ = " "
^ = "_"
a = "a"
b = "b"
s00 = ((a | b)?)?
s01 = (&(a | b))?
s02 = ((a | b) | b)?
s03 = ((a | b) - ".")?
s04 = (("," - (a | b))*)?
s10 = &((a | b)?)
s11 = &(&(a | b))
s12 = &((a | b) | b)
s13 = &((a | b) - ".")
s14 = &(("," - (a | b))*)
s20 = (a | b)? | b
s21 = &(a | b) | b
s22 = ((a | b) | b) | b
s23 = ((a | b) - ".") | b
s24 = ("," - (a | b))* | b
s30 = (a | b)? - "."
s31 = &(a | b) - "."
s32 = ((a | b) | b) - "."
s33 = ((a | b) - ".") - "."
s34 = ("," - (a | b))* - "."
s40 = ("," - (a | b)?)*
s41 = ("," - &(a | b))*
s42 = ("," - ((a | b) | b))*
s43 = ("," - ((a | b) - "."))*
s44 = ("," - ("," - (a | b))*)*
"##; opt = Some(S(" ")); man = Some(S("_"));
    a = S("a");
    b = S("b");
    s00 = Opt(&Opt(&Alt(&[x::a, x::b])));
    s01 = Opt(&Pos(&Alt(&[x::a, x::b])));
    s02 = Opt(&Alt(&[Alt(&[x::a, x::b]), x::b]));
    s03 = Opt(&Seq(&[(T::N, Alt(&[x::a, x::b])), (T::N, S("."))]));
    s04 = Opt(&Rep(&Seq(&[(T::N, S(",")), (T::N, Alt(&[x::a, x::b]))]), 0, INF, T::N));
    s10 = Pos(&Opt(&Alt(&[x::a, x::b])));
    s11 = Pos(&Pos(&Alt(&[x::a, x::b])));
    s12 = Pos(&Alt(&[Alt(&[x::a, x::b]), x::b]));
    s13 = Pos(&Seq(&[(T::N, Alt(&[x::a, x::b])), (T::N, S("."))]));
    s14 = Pos(&Rep(&Seq(&[(T::N, S(",")), (T::N, Alt(&[x::a, x::b]))]), 0, INF, T::N));
    s20 = Alt(&[Opt(&Alt(&[x::a, x::b])), x::b]);
    s21 = Alt(&[Pos(&Alt(&[x::a, x::b])), x::b]);
    s22 = Alt(&[Alt(&[Alt(&[x::a, x::b]), x::b]), x::b]);
    s23 = Alt(&[Seq(&[(T::N, Alt(&[x::a, x::b])), (T::N, S("."))]), x::b]);
    s24 = Alt(&[Rep(&Seq(&[(T::N, S(",")), (T::N, Alt(&[x::a, x::b]))]), 0, INF, T::N), x::b]);
    s30 = Seq(&[(T::N, Opt(&Alt(&[x::a, x::b]))), (T::N, S("."))]);
    s31 = Seq(&[(T::N, Pos(&Alt(&[x::a, x::b]))), (T::N, S("."))]);
    s32 = Seq(&[(T::N, Alt(&[Alt(&[x::a, x::b]), x::b])), (T::N, S("."))]);
    s33 = Seq(&[(T::N, Seq(&[(T::N, Alt(&[x::a, x::b])), (T::N, S("."))])), (T::N, S("."))]);
    s34 = Seq(&[(T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, Alt(&[x::a, x::b]))]), 0, INF, T::N)), (T::N, S("."))]);
    s40 = Rep(&Seq(&[(T::N, S(",")), (T::N, Opt(&Alt(&[x::a, x::b])))]), 0, INF, T::N);
    s41 = Rep(&Seq(&[(T::N, S(",")), (T::N, Pos(&Alt(&[x::a, x::b])))]), 0, INF, T::N);
    s42 = Rep(&Seq(&[(T::N, S(",")), (T::N, Alt(&[Alt(&[x::a, x::b]), x::b]))]), 0, INF, T::N);
    s43 = Rep(&Seq(&[(T::N, S(",")), (T::N, Seq(&[(T::N, Alt(&[x::a, x::b])), (T::N, S("."))]))]), 0, INF, T::N);
    s44 = Rep(&Seq(&[(T::N, S(",")), (T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, Alt(&[x::a, x::b]))]), 0, INF, T::N))]), 0, INF, T::N);
}
sp!(shape2: a b s00 s01 s02 s03 s04 s10 s11 s12 s13 s14 s20 s21 s22 s23 s24 s30 s31 s32 s33 s34 s40 s41 s42 s43 s44;);
fn shape2_parts(k: usize, s: &'static str) { match k {
    2 => accessors_of!(shape2, s00: a b; s),
    3 => accessors_of!(shape2, s01: a b; s),
    4 => accessors_of!(shape2, s02: a b; s),
    5 => accessors_of!(shape2, s03: a b; s),
    6 => accessors_of!(shape2, s04: a b; s),
    7 => accessors_of!(shape2, s10: a b; s),
    8 => accessors_of!(shape2, s11: a b; s),
    9 => accessors_of!(shape2, s12: a b; s),
    10 => accessors_of!(shape2, s13: a b; s),
    11 => accessors_of!(shape2, s14: a b; s),
    12 => accessors_of!(shape2, s20: a b; s),
    13 => accessors_of!(shape2, s21: a b; s),
    14 => accessors_of!(shape2, s22: a b; s),
    15 => accessors_of!(shape2, s23: a b; s),
    16 => accessors_of!(shape2, s24: a b; s),
    17 => accessors_of!(shape2, s30: a b; s),
    18 => accessors_of!(shape2, s31: a b; s),
    19 => accessors_of!(shape2, s32: a b; s),
    20 => accessors_of!(shape2, s33: a b; s),
    21 => accessors_of!(shape2, s34: a b; s),
    22 => accessors_of!(shape2, s40: a b; s),
    23 => accessors_of!(shape2, s41: a b; s),
    24 => accessors_of!(shape2, s42: a b; s),
    25 => accessors_of!(shape2, s43: a b; s),
    26 => accessors_of!(shape2, s44: a b; s),
    _ => {}
} }
suite! { mod shape3 = r##"
~ = " "
^ = "_"
a = "a"
b = "b"
s00 = ((a - ".")?)?
s01 = (&(a - "."))?
s02 = ((a - ".") | b)?
s03 = ((a - ".") - ".")?
s04 = (("," - (a - "."))*)?
s10 = &((a - ".")?)
s11 = &(&(a - "."))
s12 = &((a - ".") | b)
s13 = &((a - ".") - ".")
s14 = &(("," - (a - "."))*)
s20 = (a - ".")? | b
s21 = &(a - ".") | b
s22 = ((a - ".") | b) | b
s23 = ((a - ".") - ".") | b
s24 = ("," - (a - "."))* | b
s30 = (a - ".")? - "."
s31 = &(a - ".") - "."
s32 = ((a - ".") | b) - "."
s33 = ((a - ".") - ".") - "."
s34 = ("," - (a - "."))* - "."
s40 = ("," - (a - ".")?)*
s41 = ("," - &(a - "."))*
s42 = ("," - ((a - ".") | b))*
s43 = ("," - ((a - ".") - "."))*
s44 = ("," - ("," - (a - "."))*)*
"##; opt = Some(S(" ")); man = Some(S("_"));
    a = S("a");
    b = S("b");
    s00 = Opt(&Opt(&Seq(&[(T::N, x::a), (T::N, S("."))])));
    s01 = Opt(&Pos(&Seq(&[(T::N, x::a), (T::N, S("."))])));
    s02 = Opt(&Alt(&[Seq(&[(T::N, x::a), (T::N, S("."))]), x::b]));
    s03 = Opt(&Seq(&[(T::N, Seq(&[(T::N, x::a), (T::N, S("."))])), (T::N, S("."))]));
    s04 = Opt(&Rep(&Seq(&[(T::N, S(",")), (T::N, Seq(&[(T::N, x::a), (T::N, S("."))]))]), 0, INF, T::N));
    s10 = Pos(&Opt(&Seq(&[(T::N, x::a), (T::N, S("."))])));
    s11 = Pos(&Pos(&Seq(&[(T::N, x::a), (T::N, S("."))])));
    s12 = Pos(&Alt(&[Seq(&[(T::N, x::a), (T::N, S("."))]), x::b]));
    s13 = Pos(&Seq(&[(T::N, Seq(&[(T::N, x::a), (T::N, S("."))])), (T::N, S("."))]));
    s14 = Pos(&Rep(&Seq(&[(T::N, S(",")), (T::N, Seq(&[(T::N, x::a), (T::N, S("."))]))]), 0, INF, T::N));
    s20 = Alt(&[Opt(&Seq(&[(T::N, x::a), (T::N, S("."))])), x::b]);
    s21 = Alt(&[Pos(&Seq(&[(T::N, x::a), (T::N, S("."))])), x::b]);
    s22 = Alt(&[Alt(&[Seq(&[(T::N, x::a), (T::N, S("."))]), x::b]), x::b]);
    s23 = Alt(&[Seq(&[(T::N, Seq(&[(T::N, x::a), (T::N, S("."))])), (T::N, S("."))]), x::b]);
    s24 = Alt(&[Rep(&Seq(&[(T::N, S(",")), (T::N, Seq(&[(T::N, x::a), (T::N, S("."))]))]), 0, INF, T::N), x::b]);
    s30 = Seq(&[(T::N, Opt(&Seq(&[(T::N, x::a), (T::N, S("."))]))), (T::N, S("."))]);
    s31 = Seq(&[(T::N, Pos(&Seq(&[(T::N, x::a), (T::N, S("."))]))), (T::N, S("."))]);
    s32 = Seq(&[(T::N, Alt(&[Seq(&[(T::N, x::a), (T::N, S("."))]), x::b])), (T::N, S("."))]);
    s33 = Seq(&[(T::N, Seq(&[(T::N, Seq(&[(T::N, x::a), (T::N, S("."))])), (T::N, S("."))])), (T::N, S("."))]);
    s34 = Seq(&[(T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, Seq(&[(T::N, x::a), (T::N, S("."))]))]), 0, INF, T::N)), (T::N, S("."))]);
    s40 = Rep(&Seq(&[(T::N, S(",")), (T::N, Opt(&Seq(&[(T::N, x::a), (T::N, S("."))])))]), 0, INF, T::N);
    s41 = Rep(&Seq(&[(T::N, S(",")), (T::N, Pos(&Seq(&[(T::N, x::a), (T::N, S("."))])))]), 0, INF, T::N);
    s42 = Rep(&Seq(&[(T::N, S(",")), (T::N, Alt(&[Seq(&[(T::N, x::a), (T::N, S("."))]), x::b]))]), 0, INF, T::N);
    s43 = Rep(&Seq(&[(T::N, S(",")), (T::N, Seq(&[(T::N, Seq(&[(T::N, x::a), (T::N, S("."))])), (T::N, S("."))]))]), 0, INF, T::N);
    s44 = Rep(&Seq(&[(T::N, S(",")), (T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, Seq(&[(T::N, x::a), (T::N, S("."))]))]), 0, INF, T::N))]), 0, INF, T::N);
}
sp!(shape3: a b s00 s01 s02 s03 s04 s10 s11 s12 s13 s14 s20 s21 s22 s23 s24 s30 s31 s32 s33 s34 s40 s41 s42 s43 s44;);
fn shape3_parts(k: usize, s: &'static str) { match k {
    2 => accessors_of!(shape3, s00: a; s),
    3 => accessors_of!(shape3, s01: a; s),
    4 => accessors_of!(shape3, s02: a b; s),
    5 => accessors_of!(shape3, s03: a; s),
    6 => accessors_of!(shape3, s04: a; s),
    7 => accessors_of!(shape3, s10: a; s),
    8 => accessors_of!(shape3, s11: a; s),
    9 => accessors_of!(shape3, s12: a b; s),
    10 => accessors_of!(shape3, s13: a; s),
    11 => accessors_of!(shape3, s14: a; s),
    12 => accessors_of!(shape3, s20: a b; s),
    13 => accessors_of!(shape3, s21: a b; s),
    14 => accessors_of!(shape3, s22: a b; s),
    15 => accessors_of!(shape3, s23: a b; s),
    16 => accessors_of!(shape3, s24: a b; s),
    17 => accessors_of!(shape3, s30: a; s),
    18 => accessors_of!(shape3, s31: a; s),
    19 => accessors_of!(shape3, s32: a b; s),
    20 => accessors_of!(shape3, s33: a; s),
    21 => accessors_of!(shape3, s34: a; s),
    22 => accessors_of!(shape3, s40: a; s),
    23 => accessors_of!(shape3, s41: a; s),
    24 => accessors_of!(shape3, s42: a b; s),
    25 => accessors_of!(shape3, s43: a; s),
    26 => accessors_of!(shape3, s44: a; s),
    _ => {}
} }
suite! { mod shape4 = r##"
~ = " "
^ = "_"
a = "a"
b = "b"
s00 = ((("," - a)*)?)?
s01 = (&(("," - a)*))?
s02 = (("," - a)* | b)?
s03 = (("," - a)* - ".")?
s04 = (("," - ("," - a)*)*)?
s10 = &((("," - a)*)?)
s11 = &(&(("," - a)*))
s12 = &(("," - a)* | b)
s13 = &(("," - a)* - ".")
s14 = &(("," - ("," - a)*)*)
s20 = (("," - a)*)? | b
s21 = &(("," - a)*) | b
s22 = (("," - a)* | b) | b
s23 = (("," - a)* - ".") | b
s24 = ("," - ("," - a)*)* | b
s30 = (("," - a)*)? - "."
s31 = &(("," - a)*) - "."
s32 = (("," - a)* | b) - "."
s33 = (("," - a)* - ".") - "."
s34 = ("," - ("," - a)*)* - "."
s40 = ("," - (("," - a)*)?)*
s41 = ("," - &(("," - a)*))*
s42 = ("," - (("," - a)* | b))*
s43 = ("," - (("," - a)* - "."))*
s44 = ("," - ("," - ("," - a)*)*)*
"##; opt = Some(S(" ")); man = Some(S("_"));
    a = S("a");
    b = S("b");
    s00 = Opt(&Opt(&Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N)));
    s01 = Opt(&Pos(&Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N)));
    s02 = Opt(&Alt(&[Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N), x::b]));
    s03 = Opt(&Seq(&[(T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N)), (T::N, S("."))]));
    s04 = Opt(&Rep(&Seq(&[(T::N, S(",")), (T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N))]), 0, INF, T::N));
    s10 = Pos(&Opt(&Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N)));
    s11 = Pos(&Pos(&Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N)));
    s12 = Pos(&Alt(&[Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N), x::b]));
    s13 = Pos(&Seq(&[(T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N)), (T::N, S("."))]));
    s14 = Pos(&Rep(&Seq(&[(T::N, S(",")), (T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N))]), 0, INF, T::N));
    s20 = Alt(&[Opt(&Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N)), x::b]);
    s21 = Alt(&[Pos(&Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N)), x::b]);
    s22 = Alt(&[Alt(&[Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N), x::b]), x::b]);
    s23 = Alt(&[Seq(&[(T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N)), (T::N, S("."))]), x::b]);
    s24 = Alt(&[Rep(&Seq(&[(T::N, S(",")), (T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N))]), 0, INF, T::N), x::b]);
    s30 = Seq(&[(T::N, Opt(&Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N))), (T::N, S("."))]);
    s31 = Seq(&[(T::N, Pos(&Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N))), (T::N, S("."))]);
    s32 = Seq(&[(T::N, Alt(&[Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N), x::b])), (T::N, S("."))]);
    s33 = Seq(&[(T::N, Seq(&[(T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N)), (T::N, S("."))])), (T::N, S("."))]);
    s34 = Seq(&[(T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N))]), 0, INF, T::N)), (T::N, S("."))]);
    s40 = Rep(&Seq(&[(T::N, S(",")), (T::N, Opt(&Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N)))]), 0, INF, T::N);
    s41 = Rep(&Seq(&[(T::N, S(",")), (T::N, Pos(&Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N)))]), 0, INF, T::N);
    s42 = Rep(&Seq(&[(T::N, S(",")), (T::N, Alt(&[Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N), x::b]))]), 0, INF, T::N);
    s43 = Rep(&Seq(&[(T::N, S(",")), (T::N, Seq(&[(T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N)), (T::N, S("."))]))]), 0, INF, T::N);
    s44 = Rep(&Seq(&[(T::N, S(",")), (T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, Rep(&Seq(&[(T::N, S(",")), (T::N, x::a)]), 0, INF, T::N))]), 0, INF, T::N))]), 0, INF, T::N);
}
sp!(shape4: a b s00 s01 s02 s03 s04 s10 s11 s12 s13 s14 s20 s21 s22 s23 s24 s30 s31 s32 s33 s34 s40 s41 s42 s43 s44;);
fn shape4_parts(k: usize, s: &'static str) { match k {
    2 => accessors_of!(shape4, s00: a; s),
    3 => accessors_of!(shape4, s01: a; s),
    4 => accessors_of!(shape4, s02: a b; s),
    5 => accessors_of!(shape4, s03: a; s),
    6 => accessors_of!(shape4, s04: a; s),
    7 => accessors_of!(shape4, s10: a; s),
    8 => accessors_of!(shape4, s11: a; s),
    9 => accessors_of!(shape4, s12: a b; s),
    10 => accessors_of!(shape4, s13: a; s),
    11 => accessors_of!(shape4, s14: a; s),
    12 => accessors_of!(shape4, s20: a b; s),
    13 => accessors_of!(shape4, s21: a b; s),
    14 => accessors_of!(shape4, s22: a b; s),
    15 => accessors_of!(shape4, s23: a b; s),
    16 => accessors_of!(shape4, s24: a b; s),
    17 => accessors_of!(shape4, s30: a; s),
    18 => accessors_of!(shape4, s31: a; s),
    19 => accessors_of!(shape4, s32: a b; s),
    20 => accessors_of!(shape4, s33: a; s),
    21 => accessors_of!(shape4, s34: a; s),
    22 => accessors_of!(shape4, s40: a; s),
    23 => accessors_of!(shape4, s41: a; s),
    24 => accessors_of!(shape4, s42: a b; s),
    25 => accessors_of!(shape4, s43: a; s),
    26 => accessors_of!(shape4, s44: a; s),
    _ => {}
} }
fn any_shape() -> usize { choose(135) }
#[allow(unused)] fn run_shape(k: usize, s: &'static str) { match k / 27 { 0 => { shape0::run(k % 27, s); } 1 => { shape1::run(k % 27, s); } 2 => { shape2::run(k % 27, s); } 3 => { shape3::run(k % 27, s); } 4 => { shape4::run(k % 27, s); } _ => {} } }
#[allow(unused)] fn visit_shape<V: Visit>(k: usize, v: &mut V) { match k / 27 { 0 => shape0::visit(k % 27, v), 1 => shape1::visit(k % 27, v), 2 => shape2::visit(k % 27, v), 3 => shape3::visit(k % 27, v), 4 => shape4::visit(k % 27, v), _ => {} } }
fn parts_shape(k: usize, s: &'static str) { match k / 27 { 0 => shape0_parts(k % 27, s), 1 => shape1_parts(k % 27, s), 2 => shape2_parts(k % 27, s), 3 => shape3_parts(k % 27, s), 4 => shape4_parts(k % 27, s), _ => {} } }
