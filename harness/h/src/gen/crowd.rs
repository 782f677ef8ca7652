// Written by bin/mkgen.py.
suite! { mod crowd0 = r##"
~ = " "
^ = "_"
c0 = "ax"
c1 = "by"
c2 = "cz"
c3 = "au"
c4 = "bv"
c5 = "cw"
c6 = "ax"
c7 = "by"
c8 = "cz"
c9 = "au"
m0 = "y"
m1 = "y"
m2 = "y"
m3 = "y"
m4 = "y"
m5 = "y"
m6 = "y"
m7 = "y"
m8 = "y"
m9 = "y"
p0 = "b" - c0
p1 = "b" - c1
p2 = "b" - c2
p3 = "b" - c3
p4 = "b" - c4
p5 = "b" - c5
p6 = "b" - c6
p7 = "b" - c7
p8 = "b" - c8
p9 = "b" - c9
d9 = c0
d8 = _{ c9 | d9 }
d7 = c8 | d8
d6 = c7 | d7
d5 = c6 | d6
d4 = c5 | d5
d3 = _{ c4 | d4 }
d2 = c3 | d3
d1 = c2 | d2
d0 = c1 | d1
t0 = "b" - d0
t1 = "b" - t0
t2 = "b" - t1
t3 = "b" - t2
t4 = "b" - t3
t5 = "b" - t4
t6 = "b" - t5
t7 = "b" - t6
t8 = "b" - t7
t9 = "b" - t8
all = "b" - (c0 | c1 | c2 | c3 | c4 | c5 | c6 | c7 | c8 | c9)
both = "b" - ((c0 | (!(m0) - m0)) | (c1 | (!(m1) - m1)) | (c2 | (!(m2) - m2)) | (c3 | (!(m3) - m3)) | (c4 | (!(m4) - m4)) | (c5 | (!(m5) - m5)) | (c6 | (!(m6) - m6)) | (c7 | (!(m7) - m7)) | (c8 | (!(m8) - m8)) | (c9 | (!(m9) - m9)))
groups = p0 | p1 | p2 | p3 | p4 | p5 | p6 | p7 | p8 | p9
deep = "b" - d0
seen = "b" - ((!(m0) - c0) | (!(m1) - c1) | (!(m2) - c2) | (!(m3) - c3) | (!(m4) - c4) | (!(m5) - c5) | (!(m6) - c6) | (!(m7) - c7) | (!(m8) - c8) | (!(m9) - c9))
nots = "b" - (!(d0))? - m0+
stack = "b" - (pest::stack::peek | pest::stack::pop | pest::stack::drop | pest::stack::peek[1..] | pest::stack::peek[2..5] | pest::stack::peek[3..] | pest::stack::peek[4..7] | pest::stack::peek[5..] | pest::stack::peek[6..9] | pest::stack::peek[7..] | pest::stack::peek[8..11] | pest::stack::peek[9..])
gaps = pest::stack::push("b") - (groups | pest::stack::peek[-2..2] | pest::stack::peek[-3..3] | pest::stack::peek[-4..4] | pest::stack::peek[-5..5] | pest::stack::peek[-6..6] | pest::stack::peek[-7..7] | pest::stack::peek[-8..8] | pest::stack::peek[-9..9])
after = groups* - all
tower = t9
"##; opt = Some(S(" ")); man = Some(S("_"));
    c0 = S("ax");
    c1 = S("by");
    c2 = S("cz");
    c3 = S("au");
    c4 = S("bv");
    c5 = S("cw");
    c6 = S("ax");
    c7 = S("by");
    c8 = S("cz");
    c9 = S("au");
    m0 = S("y");
    m1 = S("y");
    m2 = S("y");
    m3 = S("y");
    m4 = S("y");
    m5 = S("y");
    m6 = S("y");
    m7 = S("y");
    m8 = S("y");
    m9 = S("y");
    p0 = Seq(&[(T::N, S("b")), (T::N, x::c0)]);
    p1 = Seq(&[(T::N, S("b")), (T::N, x::c1)]);
    p2 = Seq(&[(T::N, S("b")), (T::N, x::c2)]);
    p3 = Seq(&[(T::N, S("b")), (T::N, x::c3)]);
    p4 = Seq(&[(T::N, S("b")), (T::N, x::c4)]);
    p5 = Seq(&[(T::N, S("b")), (T::N, x::c5)]);
    p6 = Seq(&[(T::N, S("b")), (T::N, x::c6)]);
    p7 = Seq(&[(T::N, S("b")), (T::N, x::c7)]);
    p8 = Seq(&[(T::N, S("b")), (T::N, x::c8)]);
    p9 = Seq(&[(T::N, S("b")), (T::N, x::c9)]);
    d9 = x::c0;
    d8 "_" = Alt(&[x::c9, x::d9]);
    d7 = Alt(&[x::c8, x::d8]);
    d6 = Alt(&[x::c7, x::d7]);
    d5 = Alt(&[x::c6, x::d6]);
    d4 = Alt(&[x::c5, x::d5]);
    d3 "_" = Alt(&[x::c4, x::d4]);
    d2 = Alt(&[x::c3, x::d3]);
    d1 = Alt(&[x::c2, x::d2]);
    d0 = Alt(&[x::c1, x::d1]);
    t0 = Seq(&[(T::N, S("b")), (T::N, x::d0)]);
    t1 = Seq(&[(T::N, S("b")), (T::N, x::t0)]);
    t2 = Seq(&[(T::N, S("b")), (T::N, x::t1)]);
    t3 = Seq(&[(T::N, S("b")), (T::N, x::t2)]);
    t4 = Seq(&[(T::N, S("b")), (T::N, x::t3)]);
    t5 = Seq(&[(T::N, S("b")), (T::N, x::t4)]);
    t6 = Seq(&[(T::N, S("b")), (T::N, x::t5)]);
    t7 = Seq(&[(T::N, S("b")), (T::N, x::t6)]);
    t8 = Seq(&[(T::N, S("b")), (T::N, x::t7)]);
    t9 = Seq(&[(T::N, S("b")), (T::N, x::t8)]);
    all = Seq(&[(T::N, S("b")), (T::N, Alt(&[x::c0, x::c1, x::c2, x::c3, x::c4, x::c5, x::c6, x::c7, x::c8, x::c9]))]);
    both = Seq(&[(T::N, S("b")), (T::N, Alt(&[Alt(&[x::c0, Seq(&[(T::N, Neg(&x::m0)), (T::N, x::m0)])]), Alt(&[x::c1, Seq(&[(T::N, Neg(&x::m1)), (T::N, x::m1)])]), Alt(&[x::c2, Seq(&[(T::N, Neg(&x::m2)), (T::N, x::m2)])]), Alt(&[x::c3, Seq(&[(T::N, Neg(&x::m3)), (T::N, x::m3)])]), Alt(&[x::c4, Seq(&[(T::N, Neg(&x::m4)), (T::N, x::m4)])]), Alt(&[x::c5, Seq(&[(T::N, Neg(&x::m5)), (T::N, x::m5)])]), Alt(&[x::c6, Seq(&[(T::N, Neg(&x::m6)), (T::N, x::m6)])]), Alt(&[x::c7, Seq(&[(T::N, Neg(&x::m7)), (T::N, x::m7)])]), Alt(&[x::c8, Seq(&[(T::N, Neg(&x::m8)), (T::N, x::m8)])]), Alt(&[x::c9, Seq(&[(T::N, Neg(&x::m9)), (T::N, x::m9)])])]))]);
    groups = Alt(&[x::p0, x::p1, x::p2, x::p3, x::p4, x::p5, x::p6, x::p7, x::p8, x::p9]);
    deep = Seq(&[(T::N, S("b")), (T::N, x::d0)]);
    seen = Seq(&[(T::N, S("b")), (T::N, Alt(&[Seq(&[(T::N, Neg(&x::m0)), (T::N, x::c0)]), Seq(&[(T::N, Neg(&x::m1)), (T::N, x::c1)]), Seq(&[(T::N, Neg(&x::m2)), (T::N, x::c2)]), Seq(&[(T::N, Neg(&x::m3)), (T::N, x::c3)]), Seq(&[(T::N, Neg(&x::m4)), (T::N, x::c4)]), Seq(&[(T::N, Neg(&x::m5)), (T::N, x::c5)]), Seq(&[(T::N, Neg(&x::m6)), (T::N, x::c6)]), Seq(&[(T::N, Neg(&x::m7)), (T::N, x::c7)]), Seq(&[(T::N, Neg(&x::m8)), (T::N, x::c8)]), Seq(&[(T::N, Neg(&x::m9)), (T::N, x::c9)])]))]);
    nots = Seq(&[(T::N, S("b")), (T::N, Opt(&Neg(&x::d0))), (T::N, Rep(&x::m0, 1, INF, T::N))]);
    stack = Seq(&[(T::N, S("b")), (T::N, Alt(&[Peek, Pop, Drop, Slice(1, None), Slice(2, Some(5)), Slice(3, None), Slice(4, Some(7)), Slice(5, None), Slice(6, Some(9)), Slice(7, None), Slice(8, Some(11)), Slice(9, None)]))]);
    gaps = Seq(&[(T::N, Push(&S("b"))), (T::N, Alt(&[x::groups, Slice(-2, Some(2)), Slice(-3, Some(3)), Slice(-4, Some(4)), Slice(-5, Some(5)), Slice(-6, Some(6)), Slice(-7, Some(7)), Slice(-8, Some(8)), Slice(-9, Some(9))]))]);
    after = Seq(&[(T::N, Rep(&x::groups, 0, INF, T::N)), (T::N, x::all)]);
    tower = x::t9;
}
suite! { mod crowd1 = r##"
~ = " "
^ = "_"
c0 = "ax"
c1 = "by"
c2 = "cz"
c3 = "au"
c4 = "bv"
c5 = "cw"
c6 = "ax"
c7 = "by"
c8 = "cz"
c9 = "au"
c10 = "bv"
c11 = "cw"
c12 = "ax"
c13 = "by"
c14 = "cz"
c15 = "au"
c16 = "bv"
c17 = "cw"
c18 = "ax"
c19 = "by"
c20 = "cz"
c21 = "au"
c22 = "bv"
c23 = "cw"
m0 = "y"
m1 = "y"
m2 = "y"
m3 = "y"
m4 = "y"
m5 = "y"
m6 = "y"
m7 = "y"
m8 = "y"
m9 = "y"
m10 = "y"
m11 = "y"
m12 = "y"
m13 = "y"
m14 = "y"
m15 = "y"
m16 = "y"
m17 = "y"
m18 = "y"
m19 = "y"
m20 = "y"
m21 = "y"
m22 = "y"
m23 = "y"
p0 = "b" - c0
p1 = "b" - c1
p2 = "b" - c2
p3 = "b" - c3
p4 = "b" - c4
p5 = "b" - c5
p6 = "b" - c6
p7 = "b" - c7
p8 = "b" - c8
p9 = "b" - c9
p10 = "b" - c10
p11 = "b" - c11
p12 = "b" - c12
p13 = "b" - c13
p14 = "b" - c14
p15 = "b" - c15
p16 = "b" - c16
p17 = "b" - c17
p18 = "b" - c18
p19 = "b" - c19
p20 = "b" - c20
p21 = "b" - c21
p22 = "b" - c22
p23 = "b" - c23
d23 = c0
d22 = c23 | d23
d21 = c22 | d22
d20 = c21 | d21
d19 = c20 | d20
d18 = _{ c19 | d19 }
d17 = c18 | d18
d16 = c17 | d17
d15 = c16 | d16
d14 = c15 | d15
d13 = _{ c14 | d14 }
d12 = c13 | d13
d11 = c12 | d12
d10 = c11 | d11
d9 = c10 | d10
d8 = _{ c9 | d9 }
d7 = c8 | d8
d6 = c7 | d7
d5 = c6 | d6
d4 = c5 | d5
d3 = _{ c4 | d4 }
d2 = c3 | d3
d1 = c2 | d2
d0 = c1 | d1
t0 = "b" - d0
t1 = "b" - t0
t2 = "b" - t1
t3 = "b" - t2
t4 = "b" - t3
t5 = "b" - t4
t6 = "b" - t5
t7 = "b" - t6
t8 = "b" - t7
t9 = "b" - t8
t10 = "b" - t9
t11 = "b" - t10
t12 = "b" - t11
t13 = "b" - t12
t14 = "b" - t13
t15 = "b" - t14
t16 = "b" - t15
t17 = "b" - t16
t18 = "b" - t17
t19 = "b" - t18
t20 = "b" - t19
t21 = "b" - t20
t22 = "b" - t21
t23 = "b" - t22
all = "b" - (c0 | c1 | c2 | c3 | c4 | c5 | c6 | c7 | c8 | c9 | c10 | c11 | c12 | c13 | c14 | c15 | c16 | c17 | c18 | c19 | c20 | c21 | c22 | c23)
both = "b" - ((c0 | (!(m0) - m0)) | (c1 | (!(m1) - m1)) | (c2 | (!(m2) - m2)) | (c3 | (!(m3) - m3)) | (c4 | (!(m4) - m4)) | (c5 | (!(m5) - m5)) | (c6 | (!(m6) - m6)) | (c7 | (!(m7) - m7)) | (c8 | (!(m8) - m8)) | (c9 | (!(m9) - m9)) | (c10 | (!(m10) - m10)) | (c11 | (!(m11) - m11)) | (c12 | (!(m12) - m12)) | (c13 | (!(m13) - m13)) | (c14 | (!(m14) - m14)) | (c15 | (!(m15) - m15)) | (c16 | (!(m16) - m16)) | (c17 | (!(m17) - m17)) | (c18 | (!(m18) - m18)) | (c19 | (!(m19) - m19)) | (c20 | (!(m20) - m20)) | (c21 | (!(m21) - m21)) | (c22 | (!(m22) - m22)) | (c23 | (!(m23) - m23)))
groups = p0 | p1 | p2 | p3 | p4 | p5 | p6 | p7 | p8 | p9 | p10 | p11 | p12 | p13 | p14 | p15 | p16 | p17 | p18 | p19 | p20 | p21 | p22 | p23
deep = "b" - d0
seen = "b" - ((!(m0) - c0) | (!(m1) - c1) | (!(m2) - c2) | (!(m3) - c3) | (!(m4) - c4) | (!(m5) - c5) | (!(m6) - c6) | (!(m7) - c7) | (!(m8) - c8) | (!(m9) - c9) | (!(m10) - c10) | (!(m11) - c11) | (!(m12) - c12) | (!(m13) - c13) | (!(m14) - c14) | (!(m15) - c15) | (!(m16) - c16) | (!(m17) - c17) | (!(m18) - c18) | (!(m19) - c19) | (!(m20) - c20) | (!(m21) - c21) | (!(m22) - c22) | (!(m23) - c23))
nots = "b" - (!(d0))? - m0+
stack = "b" - (pest::stack::peek | pest::stack::pop | pest::stack::drop | pest::stack::peek[1..] | pest::stack::peek[2..5] | pest::stack::peek[3..] | pest::stack::peek[4..7] | pest::stack::peek[5..] | pest::stack::peek[6..9] | pest::stack::peek[7..] | pest::stack::peek[8..11] | pest::stack::peek[9..] | pest::stack::peek[10..13] | pest::stack::peek[11..] | pest::stack::peek[12..15] | pest::stack::peek[13..] | pest::stack::peek[14..17] | pest::stack::peek[15..] | pest::stack::peek[16..19] | pest::stack::peek[17..] | pest::stack::peek[18..21] | pest::stack::peek[19..] | pest::stack::peek[20..23] | pest::stack::peek[21..] | pest::stack::peek[22..25] | pest::stack::peek[23..])
gaps = pest::stack::push("b") - (groups | pest::stack::peek[-2..2] | pest::stack::peek[-3..3] | pest::stack::peek[-4..4] | pest::stack::peek[-5..5] | pest::stack::peek[-6..6] | pest::stack::peek[-7..7] | pest::stack::peek[-8..8] | pest::stack::peek[-9..9] | pest::stack::peek[-10..10] | pest::stack::peek[-11..11] | pest::stack::peek[-12..12] | pest::stack::peek[-13..13] | pest::stack::peek[-14..14] | pest::stack::peek[-15..15] | pest::stack::peek[-16..16] | pest::stack::peek[-17..17] | pest::stack::peek[-18..18] | pest::stack::peek[-19..19] | pest::stack::peek[-20..20] | pest::stack::peek[-21..21] | pest::stack::peek[-22..22] | pest::stack::peek[-23..23])
after = groups* - all
tower = t23
"##; opt = Some(S(" ")); man = Some(S("_"));
    c0 = S("ax");
    c1 = S("by");
    c2 = S("cz");
    c3 = S("au");
    c4 = S("bv");
    c5 = S("cw");
    c6 = S("ax");
    c7 = S("by");
    c8 = S("cz");
    c9 = S("au");
    c10 = S("bv");
    c11 = S("cw");
    c12 = S("ax");
    c13 = S("by");
    c14 = S("cz");
    c15 = S("au");
    c16 = S("bv");
    c17 = S("cw");
    c18 = S("ax");
    c19 = S("by");
    c20 = S("cz");
    c21 = S("au");
    c22 = S("bv");
    c23 = S("cw");
    m0 = S("y");
    m1 = S("y");
    m2 = S("y");
    m3 = S("y");
    m4 = S("y");
    m5 = S("y");
    m6 = S("y");
    m7 = S("y");
    m8 = S("y");
    m9 = S("y");
    m10 = S("y");
    m11 = S("y");
    m12 = S("y");
    m13 = S("y");
    m14 = S("y");
    m15 = S("y");
    m16 = S("y");
    m17 = S("y");
    m18 = S("y");
    m19 = S("y");
    m20 = S("y");
    m21 = S("y");
    m22 = S("y");
    m23 = S("y");
    p0 = Seq(&[(T::N, S("b")), (T::N, x::c0)]);
    p1 = Seq(&[(T::N, S("b")), (T::N, x::c1)]);
    p2 = Seq(&[(T::N, S("b")), (T::N, x::c2)]);
    p3 = Seq(&[(T::N, S("b")), (T::N, x::c3)]);
    p4 = Seq(&[(T::N, S("b")), (T::N, x::c4)]);
    p5 = Seq(&[(T::N, S("b")), (T::N, x::c5)]);
    p6 = Seq(&[(T::N, S("b")), (T::N, x::c6)]);
    p7 = Seq(&[(T::N, S("b")), (T::N, x::c7)]);
    p8 = Seq(&[(T::N, S("b")), (T::N, x::c8)]);
    p9 = Seq(&[(T::N, S("b")), (T::N, x::c9)]);
    p10 = Seq(&[(T::N, S("b")), (T::N, x::c10)]);
    p11 = Seq(&[(T::N, S("b")), (T::N, x::c11)]);
    p12 = Seq(&[(T::N, S("b")), (T::N, x::c12)]);
    p13 = Seq(&[(T::N, S("b")), (T::N, x::c13)]);
    p14 = Seq(&[(T::N, S("b")), (T::N, x::c14)]);
    p15 = Seq(&[(T::N, S("b")), (T::N, x::c15)]);
    p16 = Seq(&[(T::N, S("b")), (T::N, x::c16)]);
    p17 = Seq(&[(T::N, S("b")), (T::N, x::c17)]);
    p18 = Seq(&[(T::N, S("b")), (T::N, x::c18)]);
    p19 = Seq(&[(T::N, S("b")), (T::N, x::c19)]);
    p20 = Seq(&[(T::N, S("b")), (T::N, x::c20)]);
    p21 = Seq(&[(T::N, S("b")), (T::N, x::c21)]);
    p22 = Seq(&[(T::N, S("b")), (T::N, x::c22)]);
    p23 = Seq(&[(T::N, S("b")), (T::N, x::c23)]);
    d23 = x::c0;
    d22 = Alt(&[x::c23, x::d23]);
    d21 = Alt(&[x::c22, x::d22]);
    d20 = Alt(&[x::c21, x::d21]);
    d19 = Alt(&[x::c20, x::d20]);
    d18 "_" = Alt(&[x::c19, x::d19]);
    d17 = Alt(&[x::c18, x::d18]);
    d16 = Alt(&[x::c17, x::d17]);
    d15 = Alt(&[x::c16, x::d16]);
    d14 = Alt(&[x::c15, x::d15]);
    d13 "_" = Alt(&[x::c14, x::d14]);
    d12 = Alt(&[x::c13, x::d13]);
    d11 = Alt(&[x::c12, x::d12]);
    d10 = Alt(&[x::c11, x::d11]);
    d9 = Alt(&[x::c10, x::d10]);
    d8 "_" = Alt(&[x::c9, x::d9]);
    d7 = Alt(&[x::c8, x::d8]);
    d6 = Alt(&[x::c7, x::d7]);
    d5 = Alt(&[x::c6, x::d6]);
    d4 = Alt(&[x::c5, x::d5]);
    d3 "_" = Alt(&[x::c4, x::d4]);
    d2 = Alt(&[x::c3, x::d3]);
    d1 = Alt(&[x::c2, x::d2]);
    d0 = Alt(&[x::c1, x::d1]);
    t0 = Seq(&[(T::N, S("b")), (T::N, x::d0)]);
    t1 = Seq(&[(T::N, S("b")), (T::N, x::t0)]);
    t2 = Seq(&[(T::N, S("b")), (T::N, x::t1)]);
    t3 = Seq(&[(T::N, S("b")), (T::N, x::t2)]);
    t4 = Seq(&[(T::N, S("b")), (T::N, x::t3)]);
    t5 = Seq(&[(T::N, S("b")), (T::N, x::t4)]);
    t6 = Seq(&[(T::N, S("b")), (T::N, x::t5)]);
    t7 = Seq(&[(T::N, S("b")), (T::N, x::t6)]);
    t8 = Seq(&[(T::N, S("b")), (T::N, x::t7)]);
    t9 = Seq(&[(T::N, S("b")), (T::N, x::t8)]);
    t10 = Seq(&[(T::N, S("b")), (T::N, x::t9)]);
    t11 = Seq(&[(T::N, S("b")), (T::N, x::t10)]);
    t12 = Seq(&[(T::N, S("b")), (T::N, x::t11)]);
    t13 = Seq(&[(T::N, S("b")), (T::N, x::t12)]);
    t14 = Seq(&[(T::N, S("b")), (T::N, x::t13)]);
    t15 = Seq(&[(T::N, S("b")), (T::N, x::t14)]);
    t16 = Seq(&[(T::N, S("b")), (T::N, x::t15)]);
    t17 = Seq(&[(T::N, S("b")), (T::N, x::t16)]);
    t18 = Seq(&[(T::N, S("b")), (T::N, x::t17)]);
    t19 = Seq(&[(T::N, S("b")), (T::N, x::t18)]);
    t20 = Seq(&[(T::N, S("b")), (T::N, x::t19)]);
    t21 = Seq(&[(T::N, S("b")), (T::N, x::t20)]);
    t22 = Seq(&[(T::N, S("b")), (T::N, x::t21)]);
    t23 = Seq(&[(T::N, S("b")), (T::N, x::t22)]);
    all = Seq(&[(T::N, S("b")), (T::N, Alt(&[x::c0, x::c1, x::c2, x::c3, x::c4, x::c5, x::c6, x::c7, x::c8, x::c9, x::c10, x::c11, x::c12, x::c13, x::c14, x::c15, x::c16, x::c17, x::c18, x::c19, x::c20, x::c21, x::c22, x::c23]))]);
    both = Seq(&[(T::N, S("b")), (T::N, Alt(&[Alt(&[x::c0, Seq(&[(T::N, Neg(&x::m0)), (T::N, x::m0)])]), Alt(&[x::c1, Seq(&[(T::N, Neg(&x::m1)), (T::N, x::m1)])]), Alt(&[x::c2, Seq(&[(T::N, Neg(&x::m2)), (T::N, x::m2)])]), Alt(&[x::c3, Seq(&[(T::N, Neg(&x::m3)), (T::N, x::m3)])]), Alt(&[x::c4, Seq(&[(T::N, Neg(&x::m4)), (T::N, x::m4)])]), Alt(&[x::c5, Seq(&[(T::N, Neg(&x::m5)), (T::N, x::m5)])]), Alt(&[x::c6, Seq(&[(T::N, Neg(&x::m6)), (T::N, x::m6)])]), Alt(&[x::c7, Seq(&[(T::N, Neg(&x::m7)), (T::N, x::m7)])]), Alt(&[x::c8, Seq(&[(T::N, Neg(&x::m8)), (T::N, x::m8)])]), Alt(&[x::c9, Seq(&[(T::N, Neg(&x::m9)), (T::N, x::m9)])]), Alt(&[x::c10, Seq(&[(T::N, Neg(&x::m10)), (T::N, x::m10)])]), Alt(&[x::c11, Seq(&[(T::N, Neg(&x::m11)), (T::N, x::m11)])]), Alt(&[x::c12, Seq(&[(T::N, Neg(&x::m12)), (T::N, x::m12)])]), Alt(&[x::c13, Seq(&[(T::N, Neg(&x::m13)), (T::N, x::m13)])]), Alt(&[x::c14, Seq(&[(T::N, Neg(&x::m14)), (T::N, x::m14)])]), Alt(&[x::c15, Seq(&[(T::N, Neg(&x::m15)), (T::N, x::m15)])]), Alt(&[x::c16, Seq(&[(T::N, Neg(&x::m16)), (T::N, x::m16)])]), Alt(&[x::c17, Seq(&[(T::N, Neg(&x::m17)), (T::N, x::m17)])]), Alt(&[x::c18, Seq(&[(T::N, Neg(&x::m18)), (T::N, x::m18)])]), Alt(&[x::c19, Seq(&[(T::N, Neg(&x::m19)), (T::N, x::m19)])]), Alt(&[x::c20, Seq(&[(T::N, Neg(&x::m20)), (T::N, x::m20)])]), Alt(&[x::c21, Seq(&[(T::N, Neg(&x::m21)), (T::N, x::m21)])]), Alt(&[x::c22, Seq(&[(T::N, Neg(&x::m22)), (T::N, x::m22)])]), Alt(&[x::c23, Seq(&[(T::N, Neg(&x::m23)), (T::N, x::m23)])])]))]);
    groups = Alt(&[x::p0, x::p1, x::p2, x::p3, x::p4, x::p5, x::p6, x::p7, x::p8, x::p9, x::p10, x::p11, x::p12, x::p13, x::p14, x::p15, x::p16, x::p17, x::p18, x::p19, x::p20, x::p21, x::p22, x::p23]);
    deep = Seq(&[(T::N, S("b")), (T::N, x::d0)]);
    seen = Seq(&[(T::N, S("b")), (T::N, Alt(&[Seq(&[(T::N, Neg(&x::m0)), (T::N, x::c0)]), Seq(&[(T::N, Neg(&x::m1)), (T::N, x::c1)]), Seq(&[(T::N, Neg(&x::m2)), (T::N, x::c2)]), Seq(&[(T::N, Neg(&x::m3)), (T::N, x::c3)]), Seq(&[(T::N, Neg(&x::m4)), (T::N, x::c4)]), Seq(&[(T::N, Neg(&x::m5)), (T::N, x::c5)]), Seq(&[(T::N, Neg(&x::m6)), (T::N, x::c6)]), Seq(&[(T::N, Neg(&x::m7)), (T::N, x::c7)]), Seq(&[(T::N, Neg(&x::m8)), (T::N, x::c8)]), Seq(&[(T::N, Neg(&x::m9)), (T::N, x::c9)]), Seq(&[(T::N, Neg(&x::m10)), (T::N, x::c10)]), Seq(&[(T::N, Neg(&x::m11)), (T::N, x::c11)]), Seq(&[(T::N, Neg(&x::m12)), (T::N, x::c12)]), Seq(&[(T::N, Neg(&x::m13)), (T::N, x::c13)]), Seq(&[(T::N, Neg(&x::m14)), (T::N, x::c14)]), Seq(&[(T::N, Neg(&x::m15)), (T::N, x::c15)]), Seq(&[(T::N, Neg(&x::m16)), (T::N, x::c16)]), Seq(&[(T::N, Neg(&x::m17)), (T::N, x::c17)]), Seq(&[(T::N, Neg(&x::m18)), (T::N, x::c18)]), Seq(&[(T::N, Neg(&x::m19)), (T::N, x::c19)]), Seq(&[(T::N, Neg(&x::m20)), (T::N, x::c20)]), Seq(&[(T::N, Neg(&x::m21)), (T::N, x::c21)]), Seq(&[(T::N, Neg(&x::m22)), (T::N, x::c22)]), Seq(&[(T::N, Neg(&x::m23)), (T::N, x::c23)])]))]);
    nots = Seq(&[(T::N, S("b")), (T::N, Opt(&Neg(&x::d0))), (T::N, Rep(&x::m0, 1, INF, T::N))]);
    stack = Seq(&[(T::N, S("b")), (T::N, Alt(&[Peek, Pop, Drop, Slice(1, None), Slice(2, Some(5)), Slice(3, None), Slice(4, Some(7)), Slice(5, None), Slice(6, Some(9)), Slice(7, None), Slice(8, Some(11)), Slice(9, None), Slice(10, Some(13)), Slice(11, None), Slice(12, Some(15)), Slice(13, None), Slice(14, Some(17)), Slice(15, None), Slice(16, Some(19)), Slice(17, None), Slice(18, Some(21)), Slice(19, None), Slice(20, Some(23)), Slice(21, None), Slice(22, Some(25)), Slice(23, None)]))]);
    gaps = Seq(&[(T::N, Push(&S("b"))), (T::N, Alt(&[x::groups, Slice(-2, Some(2)), Slice(-3, Some(3)), Slice(-4, Some(4)), Slice(-5, Some(5)), Slice(-6, Some(6)), Slice(-7, Some(7)), Slice(-8, Some(8)), Slice(-9, Some(9)), Slice(-10, Some(10)), Slice(-11, Some(11)), Slice(-12, Some(12)), Slice(-13, Some(13)), Slice(-14, Some(14)), Slice(-15, Some(15)), Slice(-16, Some(16)), Slice(-17, Some(17)), Slice(-18, Some(18)), Slice(-19, Some(19)), Slice(-20, Some(20)), Slice(-21, Some(21)), Slice(-22, Some(22)), Slice(-23, Some(23))]))]);
    after = Seq(&[(T::N, Rep(&x::groups, 0, INF, T::N)), (T::N, x::all)]);
    tower = x::t23;
}
fn crowd0_last() -> usize { crowd0::NAMES.len() - 1 - choose(10) }
fn crowd1_last() -> usize { crowd1::NAMES.len() - 1 - choose(10) }
