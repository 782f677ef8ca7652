//! Positions and spans denote valid slices.
use h::*;
use std::cmp::Ordering;
use std::ops::Bound;
/// Any number: near the text, near the end of the number type, or anything.
fn number(near: usize) -> usize {
    match choose(3) {
        0 => choose(near),
        1 => usize::MAX - choose(3),
        _ => { let mut x = 0usize; for _ in 0..8 { x = x << 8 | byte() as usize } assume(x >= near); x }
    }
}
fn valid(s: &str, a: usize, z: usize) -> bool { a <= z && z <= s.len() && boundary(s, a) && boundary(s, z) }
entry!(h_position, {
    let s = text_upto(param(0), 4);
    let at = number(s.len() + 2);
    let p = Position::new(s, at);
    ck(p.is_some() == valid(s, at, s.len()), "a position is accepted exactly on a boundary");
    if let Some(p) = p { ck(p.pos() == at, "the offset"); cover(1) } else { cover(0) }
    ck(Position::from_start(s).pos() == 0, "the start");
});
entry!(h_span, {
    let s = text_upto(param(0), 4);
    let (a, z) = (number(s.len() + 2), number(s.len() + 2));
    let p = Span::new(s, a, z);
    ck(p.is_some() == valid(s, a, z), "a span is accepted exactly for a slice");
    let Some(p) = p else { cover(0); return };
    cover(1);
    ck(p.start() == a && p.end() == z, "the offsets");
    ck(p.as_str().len() == z - a && p.as_str().as_ptr() as usize == s.as_ptr() as usize + a, "the text");
    ck(p.get_input().as_ptr() == s.as_ptr() && p.get_input().len() == s.len(), "the input");
    ck(p.start_pos().pos() == a && p.end_pos().pos() == z, "the end positions");
    let (x, y) = p.split();
    ck(x.pos() == a && y.pos() == z, "splitting");
    ck(x.span(&y) == p, "the span of the two ends");
    ck(x.cmp(&y) == a.cmp(&z) && x.partial_cmp(&y) == Some(a.cmp(&z)) && (x == y) == (a == z), "order of positions");
    trace((a * 100 + z) as u64);
});
entry!(h_get, {
    let s = text_upto(param(0), 3);
    let a = choose(s.len() + 1);
    let z = a + choose(s.len() + 1 - a);
    let Some(p) = Span::new(s, a, z) else { return };
    let n = z - a;
    let (x, y) = (number(n + 2), number(n + 2));
    let lo = match choose(3) { 0 => Bound::Included(x), 1 => Bound::Excluded(x), _ => Bound::Unbounded };
    let hi = match choose(3) { 0 => Bound::Included(y), 1 => Bound::Excluded(y), _ => Bound::Unbounded };
    // Offsets as wide numbers.
    let from = match lo { Bound::Included(x) => x as u128, Bound::Excluded(x) => x as u128 + 1, Bound::Unbounded => 0 };
    let to = match hi { Bound::Included(y) => y as u128 + 1, Bound::Excluded(y) => y as u128, Bound::Unbounded => n as u128 };
    let ok = from <= to && to <= n as u128 && valid(s, a + from as usize, a + to as usize);
    let g = p.get((lo, hi));
    ck(g.is_some() == ok, "a part of a span is given exactly when it is a slice of it");
    let Some(g) = g else { cover(0); return };
    cover(1);
    ck(g.start() == a + from as usize && g.end() == a + to as usize, "the part");
    ck(g.get_input().as_ptr() == s.as_ptr() && g.get_input().len() == s.len(), "the input of the part");
    trace((g.start() * 100 + g.end()) as u64);
});
entry!(h_ranges, {
    let s = ascii_upto(param(0));
    let a = choose(s.len() + 1);
    let z = a + choose(s.len() + 1 - a);
    let p = Span::new(s, a, z).unwrap();
    let (x, y) = (choose(z - a + 2), choose(z - a + 2));
    let t = p.as_str();
    let (g, w) = match choose(6) {
        0 => (p.get(x..y), t.get(x..y)),
        1 => (p.get(x..=y), t.get(x..=y)),
        2 => (p.get(x..), t.get(x..)),
        3 => (p.get(..y), t.get(..y)),
        4 => (p.get(..=y), t.get(..=y)),
        _ => (p.get(..), t.get(..)),
    };
    match (g, w) {
        (None, None) => cover(0),
        (Some(g), Some(w)) => { cover(1); ck(g.as_str().as_ptr() == w.as_ptr() && g.as_str().len() == w.len(), "another slice than the text's") }
        _ => fail("given for the span but not for its text, or the other way round"),
    }
});
entry!(h_merge, {
    let s = text_upto(param(0), 2);
    let mut v = [(0, 0); 2];
    for x in &mut v { let a = choose(s.len() + 1); *x = (a, a + choose(s.len() + 1 - a)) }
    let (Some(p), Some(q)) = (Span::new(s, v[0].0, v[0].1), Span::new(s, v[1].0, v[1].1)) else { return };
    let touch = v[0].0 <= v[1].1 && v[1].0 <= v[0].1;
    let m = pest3_core::span::merge_spans(&p, &q);
    ck(m.is_some() == touch, "merged exactly when they touch or overlap");
    ck(m == pest3_core::span::merge_spans(&q, &p), "merging depends on the order");
    ck((p == q) == (v[0] == v[1]), "equality of spans");
    let Some(m) = m else { cover(0); return };
    cover(1);
    ck(m.start() == v[0].0.min(v[1].0) && m.end() == v[0].1.max(v[1].1), "the smallest span with both");
    ck(m.get_input().as_ptr() == s.as_ptr(), "its input");
});
entry!(h_order, {
    let s = text_upto(param(0), 3);
    let (a, b) = (choose(s.len() + 1), choose(s.len() + 1));
    let (Some(p), Some(q)) = (Position::new(s, a), Position::new(s, b)) else { return };
    ck(p.cmp(&q) == a.cmp(&b), "order of positions");
    ck((p < q) == (a < b) && (p == q) == (a == b) && (p >= q) == (a >= b), "comparison of positions");
    cover((p.cmp(&q) == Ordering::Less) as u32);
    if a <= b { let x = p.span(&q); ck(x.start() == a && x.end() == b && x.get_input().as_ptr() == s.as_ptr(), "the span between") }
    // The same letters elsewhere are another text.
    let other = String::from(s).leak();
    let (x, y) = (Position::new(other, a).unwrap(), Span::new(other, a, a).unwrap());
    ck(s.is_empty() || x != p, "positions of two texts are equal");
    ck(s.is_empty() || y != p.span(&p), "spans of two texts are equal");
});
harnesses!(h_position, h_span, h_get, h_ranges, h_merge, h_order);
