//! Lines of positions and spans.
use h::*;
fn pick(s: &'static str, from: usize) -> usize { let at = from + choose(s.len() - from + 1); assume(boundary(s, at)); at }
fn one(s: &'static str) { one_from(s, 0) }
fn one_from(s: &'static str, from: usize) {
    let at = pick(s, from);
    let Some(p) = Position::new(s, at) else { fail("a boundary is not accepted as a position") };
    let (a, z) = line_around(s.as_bytes(), at);
    let l = p.line_of();
    ck(l.as_ptr() as usize - s.as_ptr() as usize == a, "the line starts elsewhere");
    ck(l.len() == z - a, "the line ends elsewhere");
    cover((a > 0) as u32);
    trace((a * 100 + z) as u64);
}
fn span(s: &'static str) { let a = pick(s, 0); span_from(s, a, a) }
fn span_from(s: &'static str, a: usize, from: usize) {
    let b = s.as_bytes();
    let z = from + choose(s.len() + 1 - from);
    assume(boundary(s, z));
    let Some(sp) = Span::new(s, a, z) else { fail("a slice is not accepted as a span") };
    // The lines from the one with the start to the one with the end; the end of input begins no line.
    let mut want = Vec::new();
    if a < s.len() {
        let mut l = line_around(b, a);
        loop {
            want.push(l);
            if l.1 >= s.len() || l.1 > z { break }
            l = line_around(b, l.1);
        }
    }
    let mut k = 0;
    for l in sp.lines_span() {
        ck(k < want.len(), "too many lines");
        ck(l.start() == want[k].0 && l.end() == want[k].1, "another line");
        ck(l.get_input().as_ptr() == s.as_ptr() && l.get_input().len() == s.len(), "a line of another text");
        trace(l.end() as u64);
        k += 1;
    }
    ck(k == want.len(), "a line is missing");
    let mut k = 0;
    for l in sp.lines() {
        ck(k < want.len(), "too many line texts");
        ck(l.as_ptr() as usize - s.as_ptr() as usize == want[k].0 && l.len() == want[k].1 - want[k].0, "another line text");
        k += 1;
    }
    ck(k == want.len(), "a line text is missing");
    cover(k.min(3) as u32);
}
entry!(h_line, { one(text_upto(param(0), 4)) });
entry!(h_line_breaks, { one(among_upto(param(0), b"\r\na")) });
entry!(h_line_long, { one(window("one\ntwo\r\nthr\ree\n\nfour \u{a0}\u{2028}\u{1f496}\nlast", param(0), param(1))) });
entry!(h_span, { span(text_upto(param(0), 3)) });
entry!(h_span_breaks, { span(among_upto(param(0), b"\r\na")) });
entry!(h_span_long, { span(window("o\ntw\r\nth\re\n\nf\u{a0}\u{2028}\n", param(0), param(1))) });
/// Many lines or one long line, with anything after it, and a line more.
fn big(n: usize, before: bool) -> (&'static str, usize) {
    let mut s = String::new();
    let times = [97, 98, 255, 256, 999, 2000][choose(6)];
    let unit = ["\n", "a", "\u{e9}", "x\r\n"][choose(4)];
    if before && flip() { s.push_str("z\n") }
    for _ in 0..times { s.push_str(unit) }
    let at = s.len();
    s.push_str(text_upto(n, 3));
    if flip() { s.push_str("b\nc") }
    (s.leak(), at)
}
entry!(h_line_big, { let (s, at) = big(param(0), true); one_from(s, at) });
entry!(h_span_big, { let (s, at) = big(param(0), false); assume(at < 600); let a = [0, at, at - 1, at / 2][choose(4)]; if boundary(s, a) { span_from(s, a, at) } });
harnesses!(h_line, h_line_breaks, h_line_long, h_span, h_span_breaks, h_span_long, h_line_big, h_span_big);
