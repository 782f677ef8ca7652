//! The views of a result: tuples, variants, iteration, dereferencing, comparing, copying, converting.
#![allow(non_upper_case_globals, non_camel_case_types)]
use h::*;
use core::hash::{Hash, Hasher};
use pest3_core::choice::*;
use pest3_core::sequence::*;
use pest3_core::typed::template as t;
use pest3_core::typed::template::{CharRange, Empty, Insens, Negative, Positive, RepMinMax, SkipChar, Str};
use pest3_core::typed::wrapper::{Bound, Rule as RuleOf, String as Text};
mod all {
    use pest3::Parser;
    #[derive(Parser)]
    #[grammar_inline = r##"
s2 = pest::any - pest::any
s3 = pest::any - pest::any - pest::any
s4 = pest::any - pest::any - pest::any - pest::any
s5 = pest::any - pest::any - pest::any - pest::any - pest::any
s6 = pest::any - pest::any - pest::any - pest::any - pest::any - pest::any
s7 = pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any
s8 = pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any
s9 = pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any
s10 = pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any
s11 = pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any
s12 = pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any
s13 = pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any
s14 = pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any
s15 = pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any
s16 = pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any
s17 = pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any
s18 = pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any
s19 = pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any
s20 = pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any - pest::any
c2 = 'a'..'a' | 'b'..'b'
c3 = 'a'..'a' | 'b'..'b' | 'a'..'c'
c4 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d'
c5 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e'
c6 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e' | 'f'..'f'
c7 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e' | 'f'..'f' | 'a'..'g'
c8 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e' | 'f'..'f' | 'a'..'g' | 'h'..'h'
c9 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e' | 'f'..'f' | 'a'..'g' | 'h'..'h' | 'a'..'i'
c10 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e' | 'f'..'f' | 'a'..'g' | 'h'..'h' | 'a'..'i' | 'j'..'j'
c11 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e' | 'f'..'f' | 'a'..'g' | 'h'..'h' | 'a'..'i' | 'j'..'j' | 'a'..'k'
c12 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e' | 'f'..'f' | 'a'..'g' | 'h'..'h' | 'a'..'i' | 'j'..'j' | 'a'..'k' | 'l'..'l'
c13 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e' | 'f'..'f' | 'a'..'g' | 'h'..'h' | 'a'..'i' | 'j'..'j' | 'a'..'k' | 'l'..'l' | 'a'..'m'
c14 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e' | 'f'..'f' | 'a'..'g' | 'h'..'h' | 'a'..'i' | 'j'..'j' | 'a'..'k' | 'l'..'l' | 'a'..'m' | 'n'..'n'
c15 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e' | 'f'..'f' | 'a'..'g' | 'h'..'h' | 'a'..'i' | 'j'..'j' | 'a'..'k' | 'l'..'l' | 'a'..'m' | 'n'..'n' | 'a'..'o'
c16 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e' | 'f'..'f' | 'a'..'g' | 'h'..'h' | 'a'..'i' | 'j'..'j' | 'a'..'k' | 'l'..'l' | 'a'..'m' | 'n'..'n' | 'a'..'o' | 'p'..'p'
c17 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e' | 'f'..'f' | 'a'..'g' | 'h'..'h' | 'a'..'i' | 'j'..'j' | 'a'..'k' | 'l'..'l' | 'a'..'m' | 'n'..'n' | 'a'..'o' | 'p'..'p' | 'a'..'q'
c18 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e' | 'f'..'f' | 'a'..'g' | 'h'..'h' | 'a'..'i' | 'j'..'j' | 'a'..'k' | 'l'..'l' | 'a'..'m' | 'n'..'n' | 'a'..'o' | 'p'..'p' | 'a'..'q' | 'r'..'r'
c19 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e' | 'f'..'f' | 'a'..'g' | 'h'..'h' | 'a'..'i' | 'j'..'j' | 'a'..'k' | 'l'..'l' | 'a'..'m' | 'n'..'n' | 'a'..'o' | 'p'..'p' | 'a'..'q' | 'r'..'r' | 'a'..'s'
c20 = 'a'..'a' | 'b'..'b' | 'a'..'c' | 'd'..'d' | 'a'..'e' | 'f'..'f' | 'a'..'g' | 'h'..'h' | 'a'..'i' | 'j'..'j' | 'a'..'k' | 'l'..'l' | 'a'..'m' | 'n'..'n' | 'a'..'o' | 'p'..'p' | 'a'..'q' | 'r'..'r' | 'a'..'s' | 't'..'t'
many = pest::any*
some = ("a" - 'a'..'z' | 'A'..'Z'){2..4}
spaced = 'a'..'z'^+
^ = "_"
pushed = pest::stack::push('a'..'z') - &(pest::any) - !"x" - pest::any?
"##]
    pub struct P;
}
use all::rules;
/// Sequences: every part in its place.
macro_rules! seqs { ($k:expr; $($n:literal $r:ident: $($f:ident $i:tt)*);*) => { match $k { $($n => {
    let s = ascii($n);
    let Ok(n) = rules::$r::try_parse(s) else { fail("as many characters as asked for are not accepted") };
    let b = s.as_bytes();
    let mut at = 0;
    let c = &n.content;
    let r = c.as_tuple();
    let o = (*c.clone()).into_tuple();
    $({
        let Some((want, len)) = char_at(b, at) else { fail("no character") };
        at += len;
        ck(c.$f.content as u32 == want, "a field holds another character than its own");
        ck(r.$i.content as u32 == want, "the tuple of references is out of order");
        ck(o.$i.content as u32 == want, "the tuple is out of order");
    })*
    ck(at == s.len(), "end");
    trace(at as u64);
    cover(0);
})* _ => {} } } }
entry!(h_sequence, { let k = 2 + choose(19); seqs!(k; 2 s2: field_0 0 field_1 1; 3 s3: field_0 0 field_1 1 field_2 2; 4 s4: field_0 0 field_1 1 field_2 2 field_3 3; 5 s5: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4; 6 s6: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4 field_5 5; 7 s7: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4 field_5 5 field_6 6; 8 s8: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4 field_5 5 field_6 6 field_7 7; 9 s9: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4 field_5 5 field_6 6 field_7 7 field_8 8; 10 s10: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4 field_5 5 field_6 6 field_7 7 field_8 8 field_9 9; 11 s11: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4 field_5 5 field_6 6 field_7 7 field_8 8 field_9 9 field_10 10; 12 s12: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4 field_5 5 field_6 6 field_7 7 field_8 8 field_9 9 field_10 10 field_11 11; 13 s13: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4 field_5 5 field_6 6 field_7 7 field_8 8 field_9 9 field_10 10 field_11 11 field_12 12; 14 s14: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4 field_5 5 field_6 6 field_7 7 field_8 8 field_9 9 field_10 10 field_11 11 field_12 12 field_13 13; 15 s15: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4 field_5 5 field_6 6 field_7 7 field_8 8 field_9 9 field_10 10 field_11 11 field_12 12 field_13 13 field_14 14; 16 s16: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4 field_5 5 field_6 6 field_7 7 field_8 8 field_9 9 field_10 10 field_11 11 field_12 12 field_13 13 field_14 14 field_15 15; 17 s17: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4 field_5 5 field_6 6 field_7 7 field_8 8 field_9 9 field_10 10 field_11 11 field_12 12 field_13 13 field_14 14 field_15 15 field_16 16; 18 s18: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4 field_5 5 field_6 6 field_7 7 field_8 8 field_9 9 field_10 10 field_11 11 field_12 12 field_13 13 field_14 14 field_15 15 field_16 16 field_17 17; 19 s19: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4 field_5 5 field_6 6 field_7 7 field_8 8 field_9 9 field_10 10 field_11 11 field_12 12 field_13 13 field_14 14 field_15 15 field_16 16 field_17 17 field_18 18; 20 s20: field_0 0 field_1 1 field_2 2 field_3 3 field_4 4 field_5 5 field_6 6 field_7 7 field_8 8 field_9 9 field_10 10 field_11 11 field_12 12 field_13 13 field_14 14 field_15 15 field_16 16 field_17 17 field_18 18 field_19 19) });
/// Choices: the variant that matched and no other.
macro_rules! alts { ($k:expr; $($n:literal $r:ident: $($i:literal $f:ident)*);*) => { match $k { $($n => {
    let s = ascii(1);
    let c = s.as_bytes()[0];
    let d = c.wrapping_sub(b'a');
    // Even alternatives take all letters up to their own, odd ones just their own: the first to match is the letter's own.
    let first = if d < $n { d } else { $n };
    let r = rules::$r::try_parse(s);
    ck(r.is_ok() == (first < $n), "verdict");
    cover(r.is_ok() as u32);
    let Ok(n) = r else { return };
    $(match n.content.$f() {
        Some(x) => { ck(first == $i, "another variant"); ck(x.content as u32 == c as u32, "the variant holds another character") }
        None => ck(first != $i, "the variant that matched is not given"),
    })*
    trace(first as u64);
})* _ => {} } } }
entry!(h_choice, { let k = 2 + choose(19); alts!(k; 2 c2: 0 choice_0 1 choice_1; 3 c3: 0 choice_0 1 choice_1 2 choice_2; 4 c4: 0 choice_0 1 choice_1 2 choice_2 3 choice_3; 5 c5: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4; 6 c6: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4 5 choice_5; 7 c7: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4 5 choice_5 6 choice_6; 8 c8: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4 5 choice_5 6 choice_6 7 choice_7; 9 c9: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4 5 choice_5 6 choice_6 7 choice_7 8 choice_8; 10 c10: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4 5 choice_5 6 choice_6 7 choice_7 8 choice_8 9 choice_9; 11 c11: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4 5 choice_5 6 choice_6 7 choice_7 8 choice_8 9 choice_9 10 choice_10; 12 c12: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4 5 choice_5 6 choice_6 7 choice_7 8 choice_8 9 choice_9 10 choice_10 11 choice_11; 13 c13: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4 5 choice_5 6 choice_6 7 choice_7 8 choice_8 9 choice_9 10 choice_10 11 choice_11 12 choice_12; 14 c14: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4 5 choice_5 6 choice_6 7 choice_7 8 choice_8 9 choice_9 10 choice_10 11 choice_11 12 choice_12 13 choice_13; 15 c15: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4 5 choice_5 6 choice_6 7 choice_7 8 choice_8 9 choice_9 10 choice_10 11 choice_11 12 choice_12 13 choice_13 14 choice_14; 16 c16: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4 5 choice_5 6 choice_6 7 choice_7 8 choice_8 9 choice_9 10 choice_10 11 choice_11 12 choice_12 13 choice_13 14 choice_14 15 choice_15; 17 c17: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4 5 choice_5 6 choice_6 7 choice_7 8 choice_8 9 choice_9 10 choice_10 11 choice_11 12 choice_12 13 choice_13 14 choice_14 15 choice_15 16 choice_16; 18 c18: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4 5 choice_5 6 choice_6 7 choice_7 8 choice_8 9 choice_9 10 choice_10 11 choice_11 12 choice_12 13 choice_13 14 choice_14 15 choice_15 16 choice_16 17 choice_17; 19 c19: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4 5 choice_5 6 choice_6 7 choice_7 8 choice_8 9 choice_9 10 choice_10 11 choice_11 12 choice_12 13 choice_13 14 choice_14 15 choice_15 16 choice_16 17 choice_17 18 choice_18; 20 c20: 0 choice_0 1 choice_1 2 choice_2 3 choice_3 4 choice_4 5 choice_5 6 choice_6 7 choice_7 8 choice_8 9 choice_9 10 choice_10 11 choice_11 12 choice_12 13 choice_13 14 choice_14 15 choice_15 16 choice_16 17 choice_17 18 choice_18 19 choice_19) });
// Rounds of a repetition.
entry!(h_rounds, {
    match choose(3) {
        0 => {
            let s = text_upto(param(0), 2);
            let Ok(n) = rules::many::try_parse(s) else { fail("any characters are not accepted") };
            let mut at = 0;
            let mut k = 0;
            for x in n.content.iter() {
                let Some((c, l)) = char_at(s.as_bytes(), at) else { fail("more rounds than characters") };
                ck(x.content as u32 == c, "a round out of order");
                ck(n.content.content[k].content == x.content, "the list differs from what is iterated");
                at += l;
                k += 1;
            }
            ck(at == s.len(), "a round is missing");
            let mut at = 0;
            for x in *n.content.clone() {
                let Some((c, l)) = char_at(s.as_bytes(), at) else { fail("more rounds than characters, by value") };
                ck(x.content as u32 == c, "a round out of order, by value");
                at += l;
            }
            ck(at == s.len(), "a round is missing, by value");
            ck(n.content.iter().len() == k, "the number of rounds");
            let mut back = s.len();
            for x in n.content.iter().rev() {
                back -= x.content.len_utf8();
                ck(char_at(s.as_bytes(), back).map(|c| c.0) == Some(x.content as u32), "backwards");
            }
            trace(k as u64);
            cover(0);
        }
        1 => {
            let s = ascii_upto(param(0));
            let Ok((p, n)) = rules::some::try_parse_partial(s) else { return };
            let mut at = 0;
            for x in n.content.iter() {
                match (x.choice_0(), x.choice_1()) {
                    (Some(q), None) => { ck(s.as_bytes()[at] == b'a' && q.field_1.content as u32 == s.as_bytes()[at + 1] as u32, "first alternative"); at += 2 }
                    (None, Some(q)) => { ck(q.content as u32 == s.as_bytes()[at] as u32, "second alternative"); at += 1 }
                    _ => fail("not exactly one variant"),
                }
            }
            ck(at == p.pos(), "rounds and end disagree");
            ck(n.content.iter().len() >= 2 && n.content.iter().len() <= 4, "number of rounds");
            trace(at as u64);
            cover(1);
        }
        _ => {
            let s = among_upto(param(0), b"ab_z");
            let Ok((p, n)) = rules::spaced::try_parse_partial(s) else { return };
            let mut k = 0;
            for x in n.content.iter() { ck(x.content as u32 == s.as_bytes()[2 * k] as u32, "round between trivia"); k += 1 }
            ck(p.pos() == 2 * k - 1, "rounds and end disagree");
            trace(k as u64);
            cover(2);
        }
    }
});
// What a push, predicate or rule holds.
entry!(h_inside, {
    let s = ascii_upto(param(0));
    let Ok((p, n)) = rules::pushed::try_parse_partial(s) else { cover(0); return };
    let b = s.as_bytes();
    let (push, ahead, _, last) = n.content.as_tuple();
    ck((**push).content as u32 == b[0] as u32 && push.content.content as u32 == b[0] as u32, "what was pushed");
    ck(ahead.content.content as u32 == b[1] as u32 && (**ahead).content as u32 == b[1] as u32, "what was seen ahead");
    ck(last.as_ref().map(|x| x.content as u32) == Some(b[1] as u32) && p.pos() == 2, "the last part");
    let mut m = n.clone();
    (*m.content.field_0).content = 'Q';
    (*m.content.field_1).content = 'R';
    ck(m.content.field_0.content.content == 'Q' && m.content.field_1.content.content == 'R' && m != n, "a changed part is as before");
    trace(b[0] as u64);
    cover(1);
});
/// Collects what is hashed.
#[derive(Default)]
struct Bytes(Vec<u8>);
impl Hasher for Bytes {
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
    fn write_usize(&mut self, x: usize) { self.write(&x.to_le_bytes()) }
    fn finish(&self) -> u64 { 0 }
}
fn hash<T: Hash>(x: &T) -> Vec<u8> { let mut b = Bytes::default(); x.hash(&mut b); b.0 }
/// Two results are equal exactly when they consist of the same matches. `key` writes those out.
fn compare<N: TypedNode<'static, Q> + Clone + PartialEq + Hash>(s: &'static str, u: &'static str, key: fn(&N, &mut Vec<u32>)) {
    let (Ok((_, a)), Ok((_, b))) = (N::try_parse_partial(s), N::try_parse_partial(u)) else { return };
    let (mut x, mut y) = (Vec::new(), Vec::new());
    key(&a, &mut x);
    key(&b, &mut y);
    let mut same = x.len() == y.len();
    if same { for i in 0..x.len() { if x[i] != y[i] { same = false } } }
    ck((a == b) == same, "equality does not say whether the same parts matched");
    ck((a != b) != same, "inequality does not say whether other parts matched");
    cover(same as u32);
    trace(same as u64 + 2 * x.len() as u64);
    let k = a.clone();
    ck(k == a, "a copy differs");
    let mut z = Vec::new();
    key(&k, &mut z);
    ck(z.len() == x.len(), "a copy holds other parts");
    for i in 0..z.len() { ck(z[i] == x[i], "a copy holds another part") }
    if same {
        let (x, y) = (hash(&a), hash(&b));
        ck(x.len() == y.len(), "equal results hash differently");
        for i in 0..x.len() { ck(x[i] == y[i], "equal results hash differently") }
    }
}
strs! { Ab = "ab"; X = "x"; }
type L = CharRange<'a', 'y'>;
type Any = t::any;
type Pair2 = Sequence2<L, Empty, Option<L>, Empty>;
type Alt3 = Choice3<Sequence2<L, Empty, L, Empty>, L, Any>;
entry!(h_equal, {
    let (s, u) = (text_upto(param(0), 2), text_upto(param(0), 2));
    match choose(11) {
        0 => compare::<Any>(s, u, |n, v| v.push(n.content as u32)),
        1 => compare::<RepMinMax<Any, Empty, 0, 3>>(s, u, |n, v| for x in n.iter() { v.push(x.content as u32) }),
        2 => compare::<Pair2>(s, u, |n, v| { v.push(n.field_0.content as u32); if let Some(x) = &n.field_1 { v.push(x.content as u32) } }),
        3 => compare::<Alt3>(s, u, |n, v| match n {
            Alt3::Choice0(x) => { v.push(0); v.push(x.field_0.content as u32); v.push(x.field_1.content as u32) }
            Alt3::Choice1(x) => { v.push(1); v.push(x.content as u32) }
            Alt3::Choice2(x) => { v.push(2); v.push(x.content as u32) }
        }),
        4 => compare::<Insens<'static, Ab>>(s, u, |n, v| for b in n.content.bytes() { v.push(b as u32) }),
        5 => compare::<t::newline>(s, u, |n, v| v.push(match n.content { t::NewLineType::CRLF => 0, t::NewLineType::LF => 1, t::NewLineType::CR => 2 })),
        6 => compare::<Positive<Any>>(s, u, |n, v| v.push(n.content.content as u32)),
        7 => compare::<Negative<Str<X>>>(s, u, |_, _| {}),
        8 => compare::<t::push<Option<L>>>(s, u, |n, v| if let Some(x) = &n.content { v.push(x.content as u32) }),
        9 => compare::<Option<Choice2<Str<X>, L>>>(s, u, |n, v| match n { None => {}, Some(Choice2::Choice0(_)) => v.push(0), Some(Choice2::Choice1(x)) => v.push(x.content as u32) }),
        _ => compare::<RepMinMax<RepMinMax<L, Empty, 1, 2>, Str<X>, 0, 3>>(s, u, |n, v| for x in n.iter() { for y in x.iter() { v.push(y.content as u32) } v.push(0) }),
    }
});
// Results with spans, of one text, from two places.
entry!(h_equal_at, {
    let (s, i) = text_at(param(0), 2);
    let j = choose(s.len() + 1);
    assume(boundary(s, j));
    // The same letters elsewhere are another text.
    let copy = !s.is_empty() && flip();
    let u: &'static str = if copy { String::from(s).leak() } else { s };
    let (Some(p), Some(q)) = (Position::new(s, i), Position::new(u, j)) else { fail("a boundary is no position") };
    fn at<N: TypedNode<'static, R>, R: RuleType>(p: Position<'static>) -> Option<(usize, N)> {
        let mut t = Tracker::new(p);
        N::try_parse_with_partial(p, &mut Stack::new(), &mut t).map(|x| (x.0.pos(), x.1))
    }
    match choose(3) {
        0 => {
            let (Some((e, a)), Some((f, b))) = (at::<SkipChar<'static, 1>, Q>(p), at::<SkipChar<'static, 1>, Q>(q)) else { return };
            ck((a == b) == (!copy && i == j && e == f), "skipped text");
            ck(a != b || hash(&a) == hash(&b), "hash of skipped text");
            cover((a == b) as u32);
        }
        1 => {
            let (Some((e, a)), Some((f, b))) = (at::<rules::many, all::Rule>(p), at::<rules::many, all::Rule>(q)) else { return };
            ck((a == b) == (!copy && i == j && e == f), "equality of a rule's results");
            cover((a == b) as u32);
        }
        _ => {
            let (Some((e, a)), Some((f, b))) = (at::<rules::c5, all::Rule>(p), at::<rules::c5, all::Rule>(q)) else { return };
            ck((a == b) == (!copy && i == j && e == f), "equality of a choice's results");
            ck(a.clone() == a, "copy");
            cover((a == b) as u32);
        }
    }
    trace(i as u64 * 16 + j as u64);
});
// A pair tree converted to other rules.
entry!(h_convert, {
    fn tree(d: usize) -> Pair<Q> {
        let n = if d == 0 { 0 } else { choose(3) };
        let mut children = Vec::new();
        for _ in 0..n { children.push(tree(d - 1)) }
        Pair { rule: [Q::A, Q::B, Q::C][choose(3)], start: byte() as usize, end: byte() as usize, children }
    }
    fn same(a: &Pair<Q>, b: &Pair<(u8, Q)>) {
        ck(b.rule.1 == a.rule && b.rule.0 == 7 && b.start == a.start && b.end == a.end, "a converted pair differs");
        ck(a.children.len() == b.children.len(), "a converted pair has other children");
        for i in 0..a.children.len() { same(&a.children[i], &b.children[i]) }
    }
    let a = tree(param(0));
    same(&a, &a.convert(&|r| (7u8, r)));
    ck(a.clone() == a, "copy of a tree");
    trace(a.children.len() as u64);
    cover((a.children.len() == 2) as u32);
});
// What the types say about themselves.
entry!(h_constants, {
    fn bound<B: Bound>(_: &B) -> (usize, usize) { (B::MIN, B::MAX) }
    let s = ascii(4);
    if let Ok((_, n)) = rules::some::try_parse_partial(s) { ck(bound(&*n.content) == (2, 4), "bounds {2..4}"); cover(0) }
    if let Ok((_, n)) = rules::many::try_parse_partial(s) { ck(bound(&*n.content) == (0, usize::MAX), "bounds *") }
    if let Ok((_, n)) = rules::spaced::try_parse_partial(s) { ck(bound(&*n.content) == (1, usize::MAX), "bounds +"); cover(1) }
    if let Ok((_, n)) = <Str<Ab> as TypedNode<'static, Q>>::try_parse_partial(s) { ck(n.get_const() == "ab" && <Str<Ab> as Text>::CONTENT == "ab", "text of a string") }
    if let Ok((_, n)) = <Insens<'static, Ab> as TypedNode<'static, Q>>::try_parse_partial(s) { ck(n.get_const() == "ab", "text of an insensitive string") }
    ck(<rules::some as RuleOf>::RULE == all::Rule::some && <rules::s17 as RuleOf>::RULE == all::Rule::s17, "the rule of a type");
    trace(s.as_bytes()[0] as u64);
});
harnesses!(h_sequence, h_choice, h_rounds, h_inside, h_equal, h_equal_at, h_convert, h_constants);
