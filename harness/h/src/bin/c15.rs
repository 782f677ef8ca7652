//! Line and column.
use h::*;
fn one(s: &'static str) { one_from(s, 0) }
fn one_from(s: &'static str, from: usize) {
    let at = from + choose(s.len() - from + 1);
    assume(boundary(s, at));
    let Some(p) = Position::new(s, at) else { fail("a boundary is not accepted as a position") };
    let (l, c) = p.line_col();
    let w = line_col_of(s.as_bytes(), at);
    ck(l == w.0, "the line number");
    ck(c == w.1, "the column");
    cover((l > 1) as u32);
    if c > 1 { cover(2) }
    trace((l * 100 + c) as u64);
}
entry!(h_text, { one(text_upto(param(0), 4)) });
entry!(h_breaks, { one(among_upto(param(0), b"\r\nab")) });
entry!(h_any, { one(ascii_upto(param(0))) });
// A long text with something arbitrary in it.
entry!(h_long, { one(window("one\ntwo\r\nthr\ree\n\nfour \u{a0}\u{2028}\u{1f496}\nlast", param(0), param(1))) });
// Positions that a parser gives.
entry!(h_moved, {
    use pest3_core::typed::template::*;
    let s = text_upto(param(0), 3);
    let r = <SkipChar<2> as TypedNode<'static, Q>>::check_partial(s);
    let Ok(p) = r else { cover(0); return };
    ck(p.line_col() == line_col_of(s.as_bytes(), p.pos()), "a parser's position");
    cover(1);
});
/// Many lines or one long line, with anything after it, and a line more.
fn big(n: usize) -> (&'static str, usize) {
    let mut s = String::new();
    let times = [97, 98, 255, 256, 999, 65535][choose(6)];
    let unit = ["\n", "a", "\u{e9}", "x\r\n"][choose(4)];
    for _ in 0..times { s.push_str(unit) }
    let at = s.len();
    s.push_str(text_upto(n, 3));
    if flip() { s.push_str("b\nc") }
    (s.leak(), at)
}
entry!(h_big, { let (s, at) = big(param(0)); one_from(s, at) });
harnesses!(h_text, h_breaks, h_any, h_long, h_moved, h_big);
