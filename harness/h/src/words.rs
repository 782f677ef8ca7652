fn dec(n: isize, o: &mut String) {
    if n < 0 { o.push('-'); return dec(-n, o) }
    if n >= 10 { dec(n / 10, o) }
    o.push((b'0' + (n % 10) as u8) as char);
}
fn words(x: &Att) -> String {
    if x.kind == 2 { return "Nothing to pop or drop.".into() }
    let mut o = String::from("Peek slice ");
    dec(x.a, &mut o);
    o.push_str("..");
    if let Some(z) = x.z { dec(z, &mut o) }
    o.push_str(" out of bound.");
    o
}
