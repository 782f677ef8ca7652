//! What the derive macro makes of several sources is what it makes of the one that holds all of them.
use hrt::*;
use std::str::FromStr;
fn tokens(sources: &[String]) -> proc_macro2::TokenStream {
    let mut s = String::new();
    for g in sources { s.push_str("#[grammar_inline = r##\""); s.push_str(g); s.push_str("\"##] ") }
    s.push_str("struct P;");
    let Ok(t) = proc_macro2::TokenStream::from_str(&s) else { fail("the item is not lexed") };
    pest3_generator::typed::derive_typed_parser(t, false, true)
}
static DOCS: &[&str] = &["//! One.\n", "//! Two.\n//! More.\n", "//! Three.\n"];
static IMPORTS: &[&str] = &["use pest::any\n", "use pest::stack as st\nuse pest::unicode::letter as l\n", "use m\n"];
static RULES: &[&str] = &["/// The first.\na = ", "~ = \" \"\n", "b(x) = x ~ any - _i(l)\n", "_i(y) = _{ y^* | st::push(m::q) }\n", "^ = b(a)\n", "c = _{ &a - !b(_h) ~ m::_g(c)? }\n", "_h = _{ st::peek[..-1]{1..2} }\n"];
entry!(h_split, {
    file("m.pest", "q = \"1\"\n_g(x) = _{ x | q }\n");
    let s = ascii(param(0));
    let mut first = String::from("\"");
    for b in s.bytes() { assume(b.is_ascii_alphanumeric() || b == b' '); first.push(b as char) }
    first.push_str("\"\n");
    let i = 1 + choose(RULES.len() - 1);
    let j = if i == RULES.len() - 1 { 0 } else { choose(RULES.len() - i) };
    let cuts = if j == 0 { vec![0, i, RULES.len()] } else { vec![0, i, i + j, RULES.len()] };
    cover(if j == 0 { 0 } else { 1 });
    let n = cuts.len() - 1;
    let shift = choose(3);
    let docs = flip();
    let rule = |k: usize| { let mut s = String::from(RULES[k]); if k == 0 { s.push_str(&first) } s };
    let (mut d, mut u, mut r) = (String::new(), String::new(), String::new());
    let mut parts = vec![];
    for k in 0..n {
        let mut p = String::new();
        let here: &[usize] = if n == 3 { &[[0], [1], [2]][(k + shift) % 3] } else { [&[0, 2][..], &[1]][(k + shift) % 2] };
        if docs { for x in here { p.push_str(DOCS[*x]); d.push_str(DOCS[*x]) } }
        for x in here { p.push_str(IMPORTS[*x]); u.push_str(IMPORTS[*x]) }
        for x in cuts[k]..cuts[k + 1] { p.push_str(&rule(x)); r.push_str(&rule(x)) }
        parts.push(p);
    }
    d.push_str(&u);
    d.push_str(&r);
    let a = tokens(&parts).to_string();
    let b = tokens(&[d]).to_string();
    ck(a == b, "the sources do not add up to the grammar of all their rules");
});
harnesses!(h_split);
