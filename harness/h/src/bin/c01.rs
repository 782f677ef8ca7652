//! Literals.
use h::*;
use hrt::spec::{*, E::*};
use pest3::Parser;
use pest3_core::typed::template::{Char, Insens, SkipChar, Str};

strs! { Ab = "ab"; Empty = ""; Uni = "é€"; Emo = "𝄞x"; Ci = "aZ@k"; CiU = "é"; CiN = "[`{1"; }
static NOG: Gram = Gram { rules: &[], opt: None, man: None };

entry!(h_str, {
    let s = text_upto(param(0), 4);
    match choose(4) {
        0 => { node_spec!(Str<Ab>, &NOG, &S("ab"), s); }
        1 => { node_spec!(Str<Empty>, &NOG, &S(""), s); }
        2 => { node_spec!(Str<Uni>, &NOG, &S("é€"), s); }
        _ => { node_spec!(Str<Emo>, &NOG, &S("𝄞x"), s); }
    }
});
entry!(h_insens, {
    let s = text_upto(param(0), 2);
    match choose(3) {
        0 => { node_spec!(Insens<'static, Ci>, &NOG, &I("aZ@k"), s); }
        1 => { node_spec!(Insens<'static, CiU>, &NOG, &I("é"), s); }
        _ => { node_spec!(Insens<'static, CiN>, &NOG, &I("[`{1"), s); }
    }
});
entry!(h_insens_content, {
    // The recorded content is the matched slice of the input.
    let s = ascii_upto(param(0));
    if let Ok((p, n)) = <Insens<'static, Ci> as TypedNode<'static, Q>>::try_parse_partial(s) {
        cover(0);
        ck(p.pos() == 4, "length");
        ck(n.content.as_ptr() == s.as_ptr() && n.content.len() == 4, "content is not the matched slice");
    } else { cover(1) }
});
entry!(h_char, {
    let s = text_upto(param(0), 4);
    match choose(3) {
        0 => { node_spec!(Char<'x'>, &NOG, &S("x"), s); }
        1 => { node_spec!(Char<'ß'>, &NOG, &S("ß"), s); }
        _ => { node_spec!(Char<'𝄞'>, &NOG, &S("𝄞"), s); }
    }
});
entry!(h_skip, {
    let s = text_upto(param(0), 4);
    match choose(4) {
        0 => { node_spec!(SkipChar<'static, 0>, &NOG, &S(""), s); }
        1 => { node_spec!(SkipChar<'static, 1>, &NOG, &Any, s); }
        2 => { node_spec!(SkipChar<'static, 2>, &NOG, &Seq(&[(T::N, Any), (T::N, Any)]), s); }
        _ => { node_spec!(SkipChar<'static, 3>, &NOG, &Seq(&[(T::N, Any), (T::N, Any), (T::N, Any)]), s); }
    }
});
// A literal is matched at every position, not only at the start.
entry!(h_at, {
    let s = text(param(0), 3);
    let at = choose(s.len() + 1);
    if !boundary(s, at) { return }
    let Some(p) = Position::new(s, at) else { fail("position") };
    let mut m = M::new(&NOG, s);
    let w = m.run(&S("ab"), at);
    ck(run_at::<Str<Ab>>(p) == (w, w), "literal away from the start");
    let w = m.run(&I("ab"), at);
    ck(run_at::<Insens<'static, Ab>>(p) == (w, w), "case-insensitive literal away from the start");
    cover(w.is_some() as u32);
    trace(w.unwrap_or(99) as u64);
});

#[derive(Parser)]
#[grammar_inline = r##"
lit   = "a\"b"
esc   = "\t\\\x41\u{e9}"
ins   = i"kK\x5b\n"
two   = "ab" - "" - i"cD"
same  = "ab" - i"ab" - "ab"
"##]
struct P;
static G: Gram = Gram { rules: &[
    (0, false, S("")),
    (Rule::lit as u32, false, S("a\"b")),
    (Rule::esc as u32, false, S("\t\\A\u{e9}")),
    (Rule::ins as u32, false, I("kK[\n")),
    (Rule::two as u32, false, Seq(&[(T::N, S("ab")), (T::N, S("")), (T::N, I("cD"))])),
    (Rule::same as u32, false, Seq(&[(T::N, S("ab")), (T::N, I("ab")), (T::N, S("ab"))])),
], opt: None, man: None };
fn num(r: Rule) -> u32 { r as u32 }
entry!(h_gen, {
    let s = text_upto(param(0), 2);
    match choose(5) {
        0 => { against_spec!(rules::lit<'static>, Rule, &G, &E::Rule(1), s, num); }
        1 => { against_spec!(rules::esc<'static>, Rule, &G, &E::Rule(2), s, num); }
        2 => { against_spec!(rules::ins<'static>, Rule, &G, &E::Rule(3), s, num); }
        3 => { against_spec!(rules::two<'static>, Rule, &G, &E::Rule(4), s, num); }
        _ => { against_spec!(rules::same<'static>, Rule, &G, &E::Rule(5), s, num); }
    }
});
strs! { Long = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ[]{}@`abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ[]{}@`abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ[]{}@`abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ[]{}@`z"; }
// Long literals, with any bytes anywhere, perhaps cut short.
entry!(h_big, {
    let l: &'static str = <Long as pest3_core::typed::wrapper::String>::CONTENT;
    let mut v = l.as_bytes().to_vec();
    let at = [0, 7, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 271][choose(13)];
    let b = byte();
    assume(b < 0x80);
    if at < v.len() { v[at] = b }
    match choose(3) { 0 => {} 1 => { v.push(b'!') } _ => { v.pop(); } }
    let s: &'static str = unsafe { core::str::from_utf8_unchecked(v.leak()) };
    if flip() { node_spec!(Str<Long>, &NOG, &S(l), s); } else { node_spec!(Insens<'static, Long>, &NOG, &I(l), s); }
});
// Literals of one grammar that are nearly the same.
suite! { mod near = r##"
w0 = i"ab"
w1 = "Ab"
w2 = "AB"
w3 = "aB"
w4 = "ab"
w5 = i"AB"
w6 = i"aB"
w7 = "ab "
w8 = " ab"
w9 = "ab\n"
w10 = "ab\r"
w11 = "ab\r\n"
w12 = "a"
w13 = "A"
w14 = i"a"
w15 = "b"
w16 = "aa"
w17 = "ba"
w18 = "é"
w19 = "e\u{301}"
w20 = "É"
w21 = i"\u{e9}"
w22 = i"É"
w23 = "K"
w24 = "K"
w25 = i"k"
w26 = "ss"
w27 = "\u{df}"
w28 = i"ss"
w29 = "\u{17f}"
w30 = "s"
w31 = "\""
w32 = "'"
w33 = "\\"
w34 = "\\\\"
w35 = "\\n"
w36 = "n"
w37 = "{"
w38 = "{}"
w39 = "{{"
w40 = "#"
w41 = "r#"
w42 = "\0"
w43 = "0"
w44 = "\\0"
w45 = "\t"
w46 = " "
w47 = "  "
w48 = " "
w49 = "\u{3000}"
w50 = "​"
w51 = "\u{feff}"
w52 = " "
w53 = "//"
w54 = "/*"
w55 = "*/"
w56 = "~"
w57 = "^"
w58 = "_"
w59 = "$"
w60 = "$x"
w61 = "%"
w62 = "💖"
w63 = "\u{10ffff}"
"##; opt = None; man = None;
    w0 = I("ab");
    w1 = S("Ab");
    w2 = S("AB");
    w3 = S("aB");
    w4 = S("ab");
    w5 = I("AB");
    w6 = I("aB");
    w7 = S("ab ");
    w8 = S(" ab");
    w9 = S("ab\u{a}");
    w10 = S("ab\u{d}");
    w11 = S("ab\u{d}\u{a}");
    w12 = S("a");
    w13 = S("A");
    w14 = I("a");
    w15 = S("b");
    w16 = S("aa");
    w17 = S("ba");
    w18 = S("\u{e9}");
    w19 = S("e\u{301}");
    w20 = S("\u{c9}");
    w21 = I("\u{e9}");
    w22 = I("\u{c9}");
    w23 = S("K");
    w24 = S("\u{212a}");
    w25 = I("k");
    w26 = S("ss");
    w27 = S("\u{df}");
    w28 = I("ss");
    w29 = S("\u{17f}");
    w30 = S("s");
    w31 = S("\"");
    w32 = S("'");
    w33 = S("\\");
    w34 = S("\\\\");
    w35 = S("\\n");
    w36 = S("n");
    w37 = S("{");
    w38 = S("{}");
    w39 = S("{{");
    w40 = S("#");
    w41 = S("r#");
    w42 = S("\u{0}");
    w43 = S("0");
    w44 = S("\\0");
    w45 = S("\u{9}");
    w46 = S(" ");
    w47 = S("  ");
    w48 = S("\u{a0}");
    w49 = S("\u{3000}");
    w50 = S("\u{200b}");
    w51 = S("\u{feff}");
    w52 = S("\u{2028}");
    w53 = S("//");
    w54 = S("/*");
    w55 = S("*/");
    w56 = S("~");
    w57 = S("^");
    w58 = S("_");
    w59 = S("$");
    w60 = S("$x");
    w61 = S("%");
    w62 = S("\u{1f496}");
    w63 = S("\u{10ffff}");
}
entry!(h_near, { let k = near::any_rule(); near::run(k, text_upto(param(0), 4)); });
entry!(h_near_ascii, { let k = near::any_rule(); near::run(k, among_upto(param(0), b"aAbBsSkK \\\n\r\"{")); });
// Hundreds of literals.
suite! { mod many = r##"
v0 = i"l0;" | "l1;" | "l2;" | "l3;" | "l4;" | i"l5;" | "l6;" | "l7;" | "l8;" | "l9;" | i"l10;" | "l11;" | "l12;" | "l13;"
v1 = "l14;" | "l15;" | "l16;" | "l17;" | i"l18;" | "l19;" | "l20;" | "l21;" | "l22;" | i"l23;" | "l24;" | "l25;" | "l26;" | "l27;"
v2 = "l28;" | "l29;" | "l30;" | i"l31;" | "l32;" | "l33;" | "l34;" | "l35;" | i"l36;" | "l37;" | "l38;" | "l39;" | "l40;" | i"l41;"
v3 = "l42;" | "l43;" | i"l44;" | "l45;" | "l46;" | "l47;" | "l48;" | i"l49;" | "l50;" | "l51;" | "l52;" | "l53;" | i"l54;" | "l55;"
v4 = "l56;" | i"l57;" | "l58;" | "l59;" | "l60;" | "l61;" | i"l62;" | "l63;" | "l64;" | "l65;" | "l66;" | i"l67;" | "l68;" | "l69;"
v5 = i"l70;" | "l71;" | "l72;" | "l73;" | "l74;" | i"l75;" | "l76;" | "l77;" | "l78;" | "l79;" | i"l80;" | "l81;" | "l82;" | "l83;"
v6 = "l84;" | "l85;" | "l86;" | "l87;" | i"l88;" | "l89;" | "l90;" | "l91;" | "l92;" | i"l93;" | "l94;" | "l95;" | "l96;" | "l97;"
v7 = "l98;" | "l99;" | "l100;" | i"l101;" | "l102;" | "l103;" | "l104;" | "l105;" | i"l106;" | "l107;" | "l108;" | "l109;" | "l110;" | i"l111;"
v8 = "l112;" | "l113;" | i"l114;" | "l115;" | "l116;" | "l117;" | "l118;" | i"l119;" | "l120;" | "l121;" | "l122;" | "l123;" | i"l124;" | "l125;"
v9 = "l126;" | i"l127;" | "l128;" | "l129;" | "l130;" | "l131;" | i"l132;" | "l133;" | "l134;" | "l135;" | "l136;" | i"l137;" | "l138;" | "l139;"
v10 = i"l140;" | "l141;" | "l142;" | "l143;" | "l144;" | i"l145;" | "l146;" | "l147;" | "l148;" | "l149;" | i"l150;" | "l151;" | "l152;" | "l153;"
v11 = "l154;" | "l155;" | "l156;" | "l157;" | i"l158;" | "l159;" | "l160;" | "l161;" | "l162;" | i"l163;" | "l164;" | "l165;" | "l166;" | "l167;"
v12 = "l168;" | "l169;" | "l170;" | i"l171;" | "l172;" | "l173;" | "l174;" | "l175;" | i"l176;" | "l177;" | "l178;" | "l179;" | "l180;" | i"l181;"
v13 = "l182;" | "l183;" | i"l184;" | "l185;" | "l186;" | "l187;" | "l188;" | i"l189;" | "l190;" | "l191;" | "l192;" | "l193;" | i"l194;" | "l195;"
v14 = "l196;" | i"l197;" | "l198;" | "l199;" | "l200;" | "l201;" | i"l202;" | "l203;" | "l204;" | "l205;" | "l206;" | i"l207;" | "l208;" | "l209;"
v15 = i"l210;" | "l211;" | "l212;" | "l213;" | "l214;" | i"l215;" | "l216;" | "l217;" | "l218;" | "l219;" | i"l220;" | "l221;" | "l222;" | "l223;"
v16 = "l224;" | "l225;" | "l226;" | "l227;" | i"l228;" | "l229;" | "l230;" | "l231;" | "l232;" | i"l233;" | "l234;" | "l235;" | "l236;" | "l237;"
v17 = "l238;" | "l239;" | "l240;" | i"l241;" | "l242;" | "l243;" | "l244;" | "l245;" | i"l246;" | "l247;" | "l248;" | "l249;" | "l250;" | i"l251;"
v18 = "l252;" | "l253;" | i"l254;" | "l255;" | "l256;" | "l257;" | "l258;" | i"l259;" | "l260;" | "l261;" | "l262;" | "l263;" | i"l264;" | "l265;"
v19 = "l266;" | i"l267;" | "l268;" | "l269;" | "l270;" | "l271;" | i"l272;" | "l273;" | "l274;" | "l275;" | "l276;" | i"l277;" | "l278;" | "l279;"
"##; opt = None; man = None;
    v0 = Alt(&[I("l0;"), S("l1;"), S("l2;"), S("l3;"), S("l4;"), I("l5;"), S("l6;"), S("l7;"), S("l8;"), S("l9;"), I("l10;"), S("l11;"), S("l12;"), S("l13;")]);
    v1 = Alt(&[S("l14;"), S("l15;"), S("l16;"), S("l17;"), I("l18;"), S("l19;"), S("l20;"), S("l21;"), S("l22;"), I("l23;"), S("l24;"), S("l25;"), S("l26;"), S("l27;")]);
    v2 = Alt(&[S("l28;"), S("l29;"), S("l30;"), I("l31;"), S("l32;"), S("l33;"), S("l34;"), S("l35;"), I("l36;"), S("l37;"), S("l38;"), S("l39;"), S("l40;"), I("l41;")]);
    v3 = Alt(&[S("l42;"), S("l43;"), I("l44;"), S("l45;"), S("l46;"), S("l47;"), S("l48;"), I("l49;"), S("l50;"), S("l51;"), S("l52;"), S("l53;"), I("l54;"), S("l55;")]);
    v4 = Alt(&[S("l56;"), I("l57;"), S("l58;"), S("l59;"), S("l60;"), S("l61;"), I("l62;"), S("l63;"), S("l64;"), S("l65;"), S("l66;"), I("l67;"), S("l68;"), S("l69;")]);
    v5 = Alt(&[I("l70;"), S("l71;"), S("l72;"), S("l73;"), S("l74;"), I("l75;"), S("l76;"), S("l77;"), S("l78;"), S("l79;"), I("l80;"), S("l81;"), S("l82;"), S("l83;")]);
    v6 = Alt(&[S("l84;"), S("l85;"), S("l86;"), S("l87;"), I("l88;"), S("l89;"), S("l90;"), S("l91;"), S("l92;"), I("l93;"), S("l94;"), S("l95;"), S("l96;"), S("l97;")]);
    v7 = Alt(&[S("l98;"), S("l99;"), S("l100;"), I("l101;"), S("l102;"), S("l103;"), S("l104;"), S("l105;"), I("l106;"), S("l107;"), S("l108;"), S("l109;"), S("l110;"), I("l111;")]);
    v8 = Alt(&[S("l112;"), S("l113;"), I("l114;"), S("l115;"), S("l116;"), S("l117;"), S("l118;"), I("l119;"), S("l120;"), S("l121;"), S("l122;"), S("l123;"), I("l124;"), S("l125;")]);
    v9 = Alt(&[S("l126;"), I("l127;"), S("l128;"), S("l129;"), S("l130;"), S("l131;"), I("l132;"), S("l133;"), S("l134;"), S("l135;"), S("l136;"), I("l137;"), S("l138;"), S("l139;")]);
    v10 = Alt(&[I("l140;"), S("l141;"), S("l142;"), S("l143;"), S("l144;"), I("l145;"), S("l146;"), S("l147;"), S("l148;"), S("l149;"), I("l150;"), S("l151;"), S("l152;"), S("l153;")]);
    v11 = Alt(&[S("l154;"), S("l155;"), S("l156;"), S("l157;"), I("l158;"), S("l159;"), S("l160;"), S("l161;"), S("l162;"), I("l163;"), S("l164;"), S("l165;"), S("l166;"), S("l167;")]);
    v12 = Alt(&[S("l168;"), S("l169;"), S("l170;"), I("l171;"), S("l172;"), S("l173;"), S("l174;"), S("l175;"), I("l176;"), S("l177;"), S("l178;"), S("l179;"), S("l180;"), I("l181;")]);
    v13 = Alt(&[S("l182;"), S("l183;"), I("l184;"), S("l185;"), S("l186;"), S("l187;"), S("l188;"), I("l189;"), S("l190;"), S("l191;"), S("l192;"), S("l193;"), I("l194;"), S("l195;")]);
    v14 = Alt(&[S("l196;"), I("l197;"), S("l198;"), S("l199;"), S("l200;"), S("l201;"), I("l202;"), S("l203;"), S("l204;"), S("l205;"), S("l206;"), I("l207;"), S("l208;"), S("l209;")]);
    v15 = Alt(&[I("l210;"), S("l211;"), S("l212;"), S("l213;"), S("l214;"), I("l215;"), S("l216;"), S("l217;"), S("l218;"), S("l219;"), I("l220;"), S("l221;"), S("l222;"), S("l223;")]);
    v16 = Alt(&[S("l224;"), S("l225;"), S("l226;"), S("l227;"), I("l228;"), S("l229;"), S("l230;"), S("l231;"), S("l232;"), I("l233;"), S("l234;"), S("l235;"), S("l236;"), S("l237;")]);
    v17 = Alt(&[S("l238;"), S("l239;"), S("l240;"), I("l241;"), S("l242;"), S("l243;"), S("l244;"), S("l245;"), I("l246;"), S("l247;"), S("l248;"), S("l249;"), S("l250;"), I("l251;")]);
    v18 = Alt(&[S("l252;"), S("l253;"), I("l254;"), S("l255;"), S("l256;"), S("l257;"), S("l258;"), I("l259;"), S("l260;"), S("l261;"), S("l262;"), S("l263;"), I("l264;"), S("l265;")]);
    v19 = Alt(&[S("l266;"), I("l267;"), S("l268;"), S("l269;"), S("l270;"), S("l271;"), I("l272;"), S("l273;"), S("l274;"), S("l275;"), S("l276;"), I("l277;"), S("l278;"), S("l279;")]);
}
entry!(h_hundreds, {
    let k = many::any_rule();
    let mut s = String::from("l");
    s.push_str(among_upto(param(0), b"0123456789;L"));
    many::run(k, s.leak());
});
harnesses!(h_near, h_near_ascii, h_hundreds, h_str, h_insens, h_insens_content, h_char, h_skip, h_at, h_gen, h_big);
