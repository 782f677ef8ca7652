//! Character ranges and built-in character rules.
use h::*;
use hrt::spec::{*, E::*};
use pest3::Parser;
use pest3_core::typed::template as t;
use pest3_core::typed::template::{CharRange, NewLineType};

/// `content` is the character at the position.
fn content(s: &str, at: usize, c: char) { ck(char_at(s.as_bytes(), at).map(|x| x.0) == Some(c as u32), "the recorded character is not the one in the input") }
entry!(h_range, {
    let (s, at) = text_at(param(0), 4);
    match choose(6) {
        0 => if let Some((_, n)) = node_at::<CharRange<'b', 'x'>>(&NOG, &R('b', 'x'), s, at) { content(s, at, n.content) },
        1 => if let Some((_, n)) = node_at::<CharRange<'\u{0}', '\u{7f}'>>(&NOG, &R('\u{0}', '\u{7f}'), s, at) { content(s, at, n.content) },
        2 => if let Some((_, n)) = node_at::<CharRange<'é', '߿'>>(&NOG, &R('é', '߿'), s, at) { content(s, at, n.content) },
        3 => if let Some((_, n)) = node_at::<CharRange<'~', '\u{10000}'>>(&NOG, &R('~', '\u{10000}'), s, at) { content(s, at, n.content) },
        4 => if let Some((_, n)) = node_at::<CharRange<'中', '中'>>(&NOG, &R('中', '中'), s, at) { content(s, at, n.content) },
        _ => if let Some((_, n)) = node_at::<CharRange<'\u{ffff}', '\u{10ffff}'>>(&NOG, &R('\u{ffff}', '\u{10ffff}'), s, at) { content(s, at, n.content) },
    }
});
// An empty range accepts nothing.
entry!(h_range_empty, {
    let (s, at) = text_at(1, 4);
    ck(node_at::<CharRange<'z', 'a'>>(&NOG, &R('z', 'a'), s, at).is_none(), "an empty range accepted something");
});
entry!(h_any, {
    let (s, at) = text_at(param(0), 4);
    if let Some((_, n)) = node_at::<t::any>(&NOG, &Any, s, at) { content(s, at, n.content) }
});
entry!(h_ends, {
    let (s, at) = text_at(param(0), 4);
    if flip() { node_at::<t::soi>(&NOG, &Soi, s, at); } else { node_at::<t::eoi>(&NOG, &Eoi, s, at); }
    node_at::<t::Empty>(&NOG, &S(""), s, at);
    node_at::<t::NONE>(&NOG, &Never, s, at);
});
entry!(h_newline, {
    let (s, at) = text_at(param(0), 2);
    if let Some((p, n)) = node_at::<t::newline>(&NOG, &Nl, s, at) {
        let k = match n.content { NewLineType::CRLF => "\r\n", NewLineType::LF => "\n", NewLineType::CR => "\r" };
        ck(&s.as_bytes()[at..p] == k.as_bytes(), "kind of line break");
    }
});
fn between(c: u32, a: char, z: char) -> bool { c >= a as u32 && c <= z as u32 }
entry!(h_ascii, {
    let (s, at) = text_at(1, 4);
    match choose(10) {
        0 => { node_at::<t::ascii_digit>(&NOG, &C(|c| between(c, '0', '9')), s, at); }
        1 => { node_at::<t::ascii_nonzero_digit>(&NOG, &C(|c| between(c, '1', '9')), s, at); }
        2 => { node_at::<t::ascii_bin_digit>(&NOG, &C(|c| between(c, '0', '1')), s, at); }
        3 => { node_at::<t::ascii_oct_digit>(&NOG, &C(|c| between(c, '0', '7')), s, at); }
        4 => { node_at::<t::ascii_hex_digit>(&NOG, &C(|c| between(c, '0', '9') || between(c, 'a', 'f') || between(c, 'A', 'F')), s, at); }
        5 => { node_at::<t::ascii_alpha_lower>(&NOG, &C(|c| between(c, 'a', 'z')), s, at); }
        6 => { node_at::<t::ascii_alpha_upper>(&NOG, &C(|c| between(c, 'A', 'Z')), s, at); }
        7 => { node_at::<t::ascii_alpha>(&NOG, &C(|c| between(c, 'A', 'Z') || between(c, 'a', 'z')), s, at); }
        8 => { node_at::<t::ascii_alphanumeric>(&NOG, &C(|c| between(c, 'A', 'Z') || between(c, 'a', 'z') || between(c, '0', '9')), s, at); }
        _ => { node_at::<t::ascii>(&NOG, &C(|c| c < 0x80), s, at); }
    }
});
// The predicate sees the character at the position and decides alone.
entry!(h_by, {
    let (s, at) = text_at(param(0), 4);
    let Some(mut p) = Position::new(s, at) else { fail("position") };
    let yes = flip();
    let mut seen = None;
    let r = t::match_char_by(&mut p, |c| { seen = Some(c); yes });
    let w = char_at(s.as_bytes(), at);
    ck(seen.map(|c| c as u32) == w.map(|x| x.0), "the predicate saw another character");
    let ok = yes && w.is_some();
    cover(ok as u32);
    ck(r.map(|c| c as u32) == if ok { w.map(|x| x.0) } else { None }, "result of the character match");
    ck(p.pos() == if ok { at + w.unwrap().1 } else { at }, "position after the character match");
});

#[derive(Parser)]
#[grammar_inline = r##"
low   = 'b'..'y'
wide  = '\x7e'..'\u{2030}'
one   = '\''..'\''
bany  = pest::any
bsoi  = "a"? - pest::soi - "b"?
beoi  = "a"? - pest::eoi
bnl   = pest::newline
dig   = pest::ascii_digit
nz    = pest::ascii_nonzero_digit
bin   = pest::ascii_bin_digit
oct   = pest::ascii_oct_digit
hex   = pest::ascii_hex_digit
lo    = pest::ascii_alpha_lower
up    = pest::ascii_alpha_upper
al    = pest::ascii_alpha
an    = pest::ascii_alphanumeric
asc   = pest::ascii
"##]
struct P;
macro_rules! gram { ($($n:ident = $e:expr;)*) => { Gram { rules: &[$((Rule::$n as u32, false, $e)),*], opt: None, man: None } } }
static G: Gram = gram! {
    low = R('b', 'y'); wide = R('\x7e', '\u{2030}'); one = R('\'', '\''); bany = Any;
    bsoi = Seq(&[(T::N, Opt(&S("a"))), (T::N, Soi), (T::N, Opt(&S("b")))]);
    beoi = Seq(&[(T::N, Opt(&S("a"))), (T::N, Eoi)]);
    bnl = Nl;
    dig = C(|c| between(c, '0', '9')); nz = C(|c| between(c, '1', '9')); bin = C(|c| between(c, '0', '1')); oct = C(|c| between(c, '0', '7'));
    hex = C(|c| between(c, '0', '9') || between(c, 'a', 'f') || between(c, 'A', 'F'));
    lo = C(|c| between(c, 'a', 'z')); up = C(|c| between(c, 'A', 'Z')); al = C(|c| between(c, 'A', 'Z') || between(c, 'a', 'z'));
    an = C(|c| between(c, 'A', 'Z') || between(c, 'a', 'z') || between(c, '0', '9')); asc = C(|c| c < 0x80);
};
fn num(r: Rule) -> u32 { r as u32 }
macro_rules! all { ($k:expr, $s:expr; $($i:literal $n:ident),*) => { match $k { $($i => { against_spec!(rules::$n<'static>, Rule, &G, &E::Rule($i), $s, num); })* _ => {} } } }
entry!(h_gen, {
    let s = text_upto(param(0), 4);
    all!(choose(17), s; 0 low, 1 wide, 2 one, 3 bany, 4 bsoi, 5 beoi, 6 bnl, 7 dig, 8 nz, 9 bin, 10 oct, 11 hex, 12 lo, 13 up, 14 al, 15 an, 16 asc);
});
harnesses!(h_range, h_range_empty, h_any, h_ends, h_newline, h_ascii, h_by, h_gen);
