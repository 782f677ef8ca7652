//! An independent reader of grammar files, written from the grammar of the language, and the comparison with what pest3_meta returns.
use pest3_meta::parser::{GrammarModule, Import, ParseExpr, ParseNode, PathArgs, Range, Trivia};

#[derive(Debug, Clone, PartialEq)]
pub enum X {
    Str(String), Insens(String), Range(char, char),
    Path(Vec<String>, Args),
    Pos(Box<N>), Neg(Box<N>),
    Seq(Box<N>, Box<N>, u8), Alt(Box<N>, Box<N>),
    Opt(Box<N>), Star(Box<N>), Plus(Box<N>),
    Rep(Box<N>, Option<usize>, Option<usize>),
    Sep(Box<N>, u8),
}
/// An expression with the part of the text that it was read from, without parentheses around it.
#[derive(Debug, Clone, PartialEq)]
pub struct N { pub x: X, pub a: usize, pub z: usize }
fn n(x: X, a: usize, z: usize) -> N { N { x, a, z } }
#[derive(Debug, Clone, PartialEq)]
pub enum Args { None, Call(Vec<N>), Slice(Option<isize>, Option<isize>) }
#[derive(Debug, Clone)]
pub struct Rule { pub doc: Vec<String>, pub name: String, pub args: Vec<String>, pub silent: bool, pub node: N, pub a: usize, pub z: usize }
#[derive(Debug, Clone)]
pub struct Use { pub path: Vec<String>, pub file: Option<String>, pub alias: Option<String>, pub at: (usize, usize) }
#[derive(Debug, Clone, Default)]
pub struct File { pub doc: Vec<String>, pub uses: Vec<Use>, pub rules: Vec<Rule> }

/// Not of the form of a grammar, or of that form with something in it that has no meaning (a count too large, an impossible escape).
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Bad { Form, Meaning }
type R<T> = Result<T, Bad>;

/// Position in the text. `bad` notes the first thing read so far that has no meaning.
/// `args_at` is where the last argument list began.
struct P<'a> { b: &'a [u8], at: usize, bad: Option<(usize, usize)>, args_at: usize }
pub fn read(s: &str) -> R<File> { read_at(s).0 }
/// Also the place of the first thing that has no meaning.
pub fn read_at(s: &str) -> (R<File>, (usize, usize)) {
    let mut p = P { b: s.as_bytes(), at: 0, bad: None, args_at: 0 };
    match (p.file(), p.bad) { (Err(b), _) => (Err(b), (0, 0)), (_, Some(at)) => (Err(Bad::Meaning), at), (f, None) => (f, (0, 0)) }
}
fn alpha(c: u8) -> bool { (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || c == b'_' }
fn digit(c: u8) -> bool { c >= b'0' && c <= b'9' }
fn hex(c: u8) -> Option<u32> {
    if digit(c) { Some((c - b'0') as u32) } else if c >= b'a' && c <= b'f' { Some((c - b'a') as u32 + 10) } else if c >= b'A' && c <= b'F' { Some((c - b'A') as u32 + 10) } else { None }
}
impl<'a> P<'a> {
    fn peek(&self, k: usize) -> Option<u8> { self.b.get(self.at + k).copied() }
    fn is(&self, t: &str) -> bool {
        let t = t.as_bytes();
        for i in 0..t.len() { if self.peek(i) != Some(t[i]) { return false } }
        true
    }
    fn eat(&mut self, t: &str) -> bool { if self.is(t) { self.at += t.len(); true } else { false } }
    fn need(&mut self, t: &str) -> R<()> { if self.eat(t) { Ok(()) } else { Err(Bad::Form) } }
    /// A token after white space.
    fn tok(&mut self, t: &str) -> bool {
        let at = self.at;
        self.skip();
        if self.eat(t) { return true }
        self.at = at;
        false
    }
    fn bad(&mut self, a: usize) { if self.bad.is_none() { self.bad = Some((a, self.at)) } }
    fn line_end(&self) -> bool { self.is("\n") || self.is("\r\n") }
    fn char_len(c: u8) -> usize { if c < 0x80 { 1 } else if c < 0xe0 { 2 } else if c < 0xf0 { 3 } else { 4 } }
    fn one(&mut self) -> Option<char> {
        let c = self.peek(0)?;
        let n = Self::char_len(c);
        let v = match n {
            1 => c as u32,
            2 => ((c as u32 & 31) << 6) | (self.b[self.at + 1] as u32 & 63),
            3 => ((c as u32 & 15) << 12) | ((self.b[self.at + 1] as u32 & 63) << 6) | (self.b[self.at + 2] as u32 & 63),
            _ => ((c as u32 & 7) << 18) | ((self.b[self.at + 1] as u32 & 63) << 12) | ((self.b[self.at + 2] as u32 & 63) << 6) | (self.b[self.at + 3] as u32 & 63),
        };
        self.at += n;
        char::from_u32(v)
    }
    fn block(&mut self) -> bool {
        let at = self.at;
        if !self.eat("/*") { return false }
        loop {
            if self.eat("*/") { return true }
            if self.is("/*") && self.block() { continue }
            if self.is("/*") || self.peek(0).is_none() { self.at = at; return false }
            self.at += 1;
        }
    }
    fn skip(&mut self) {
        loop {
            if self.eat(" ") || self.eat("\t") || self.eat("\n") || self.eat("\r\n") || self.block() { continue }
            if self.is("//") && !self.is("///") && !self.is("//!") {
                while self.peek(0).is_some() && !self.line_end() { self.at += 1 }
                continue;
            }
            return;
        }
    }
    fn ident(&mut self) -> R<String> {
        let at = self.at;
        match self.peek(0) { Some(c) if alpha(c) => self.at += 1, _ => return Err(Bad::Form) }
        while let Some(c) = self.peek(0) { if alpha(c) || digit(c) { self.at += 1 } else { break } }
        Ok(self.text(at, self.at))
    }
    fn text(&self, a: usize, z: usize) -> String { unsafe { std::str::from_utf8_unchecked(&self.b[a..z]) }.to_string() }
    fn doc(&mut self, mark: &str) -> Option<String> {
        let at = self.at;
        self.skip();
        if !self.eat(mark) { self.at = at; return None }
        let a = self.at;
        while self.peek(0).is_some() && !self.line_end() { self.at += 1 }
        Some(self.text(a, self.at).trim().to_string())
    }
    fn file(&mut self) -> R<File> {
        let mut f = File::default();
        while let Some(d) = self.doc("//!") { f.doc.push(d) }
        loop {
            let at = self.at;
            self.skip();
            if self.at == self.b.len() { return if f.rules.is_empty() { Err(Bad::Form) } else { Ok(f) } }
            let was = self.bad;
            if self.is("use ") {
                match self.import() { Ok(u) => { f.uses.push(u); continue } Err(_) => self.bad = was }
            }
            self.at = at;
            let r = self.rule()?;
            f.rules.push(r);
        }
    }
    fn import(&mut self) -> R<Use> {
        self.need("use ")?;
        self.skip();
        let was = self.bad;
        let N { x: X::Path(path, args), a, z } = self.path()? else { return Err(Bad::Form) };
        if args != Args::None { self.bad = was; self.bad(self.args_at) }
        let at = self.at;
        let file = if self.tok("in") {
            self.skip();
            let from = self.at;
            match self.string(from) { Ok(s) => Some(s), Err(_) => { self.at = at; None } }
        } else { None };
        let at = self.at;
        let mut alias = None;
        if self.tok("as") && !self.peek(0).is_some_and(|c| alpha(c) || digit(c)) {
            self.skip();
            if let Ok(a) = self.ident() { alias = Some(a) }
        }
        if alias.is_none() { self.at = at }
        Ok(Use { path, file, alias, at: (a, z) })
    }
    fn rule(&mut self) -> R<Rule> {
        let mut doc = vec![];
        self.skip();
        let a = self.at;
        while let Some(d) = self.doc("///") { doc.push(d) }
        self.skip();
        let name = if self.eat("~") { "~".to_string() } else if self.eat("^") { "^".to_string() } else { self.ident()? };
        let mut args = vec![];
        if self.tok("(") {
            loop {
                if self.tok(")") { break }
                self.skip();
                args.push(self.ident()?);
                if self.tok(",") { continue }
                if self.tok(")") { break }
                return Err(Bad::Form);
            }
        }
        if !self.tok("=") { return Err(Bad::Form) }
        self.skip();
        let silent = self.is("_") && !self.peek(1).is_some_and(alpha);
        if silent { self.at += 1 }
        let node = if self.tok("{") {
            let e = self.expr()?;
            if !self.tok("}") { return Err(Bad::Form) }
            e
        } else { self.expr()? };
        Ok(Rule { doc, name, args, silent, node, a, z: self.at })
    }
    fn choice_op(&mut self) -> bool {
        let at = self.at;
        self.skip();
        let _ = self.eat("~") || self.eat("^");
        if self.tok("|") { return true }
        self.at = at;
        false
    }
    fn expr(&mut self) -> R<N> {
        let lead = self.choice_op();
        let mut alts: Vec<Vec<(N, u8)>> = vec![vec![]];
        let t = self.term()?;
        alts.last_mut().unwrap().push((t, 0));
        let mut first = true;
        loop {
            let (at, was) = (self.at, self.bad);
            let op = if self.choice_op() { b'|' } else if self.tok("-") { b'-' } else if self.tok("~") { b'~' } else if self.tok("^") { b'^' } else { 0 };
            // A leading choice operator only stands before a choice.
            if lead && first && op != b'|' { return Err(Bad::Form) }
            if op == 0 { break }
            let Ok(t) = self.term() else {
                if lead && first { return Err(Bad::Form) }
                self.at = at;
                self.bad = was;
                break;
            };
            first = false;
            if op == b'|' { alts.push(vec![]) } else { alts.last_mut().unwrap().last_mut().unwrap().1 = op }
            alts.last_mut().unwrap().push((t, 0));
        }
        let mut res: Option<N> = None;
        while let Some(mut seq) = alts.pop() {
            let mut e = seq.pop().unwrap().0;
            while let Some((t, op)) = seq.pop() { let (a, z) = (t.a, e.z); e = n(X::Seq(Box::new(t), Box::new(e), op), a, z) }
            res = Some(match res { None => e, Some(r) => { let (a, z) = (e.a, r.z); n(X::Alt(Box::new(e), Box::new(r)), a, z) } });
        }
        Ok(res.unwrap())
    }
    fn term(&mut self) -> R<N> {
        let mut pre = vec![];
        loop { if self.tok("&") { pre.push((b'&', self.at - 1)) } else if self.tok("!") { pre.push((b'!', self.at - 1)) } else { break } }
        let mut e = if self.tok("(") {
            let e = self.expr()?;
            if !self.tok(")") { return Err(Bad::Form) }
            e
        } else { self.skip(); self.terminal()? };
        loop {
            let at = self.at;
            let tr = if self.tok("~") { b'~' } else if self.tok("^") { b'^' } else { 0 };
            let mark = self.at;
            let wrap = |e: N| { let a = e.a; Box::new(if tr == 0 { e } else { n(X::Sep(Box::new(e), tr), a, mark) }) };
            let a = e.a;
            let x = if self.tok("?") { X::Opt(wrap(e)) }
            else if self.tok("*") { X::Star(wrap(e)) }
            else if self.tok("+") { X::Plus(wrap(e)) }
            else if let Some((a, z)) = self.bounds() { X::Rep(wrap(e), a, z) }
            else { self.at = at; break };
            e = n(x, a, self.at);
        }
        while let Some((c, a)) = pre.pop() { let z = e.z; e = n(if c == b'&' { X::Pos(Box::new(e)) } else { X::Neg(Box::new(e)) }, a, z) }
        Ok(e)
    }
    /// Decimal digits without leading zeros, as a magnitude; too large ones are noted.
    fn number(&mut self) -> Option<u128> {
        match self.peek(0) { Some(b'0') => { self.at += 1; return Some(0) } Some(c) if digit(c) => {} _ => return None }
        let mut v: u128 = 0;
        while let Some(c) = self.peek(0) {
            if !digit(c) { break }
            v = v * 10 + (c - b'0') as u128;
            if v > 1 << 70 { v = 1 << 70 }
            self.at += 1;
        }
        Some(v)
    }
    fn count(&mut self) -> Option<usize> {
        let at = self.at;
        self.skip();
        let a = self.at;
        let Some(v) = self.number() else { self.at = at; return None };
        if v > usize::MAX as u128 { self.bad(a); return Some(usize::MAX) }
        Some(v as usize)
    }
    fn bounds(&mut self) -> Option<(Option<usize>, Option<usize>)> {
        let (at, was) = (self.at, self.bad);
        if self.tok("{") {
            self.skip();
            let from = self.at;
            let a = self.count();
            let r = if self.tok("..") { Some((a, self.count())) } else { a.map(|a| (Some(a), Some(a))) };
            if let Some((a, z)) = r {
                if z == Some(0) { self.bad(from) }
                if let (Some(a), Some(z)) = (a, z) { if a > z { self.bad(from) } }
                if self.tok("}") { return Some((a, z)) }
            }
        }
        self.at = at;
        self.bad = was;
        None
    }
    fn index(&mut self) -> Option<isize> {
        let at = self.at;
        self.skip();
        let a = self.at;
        let neg = self.eat("-");
        if !neg { self.eat("+"); }
        let Some(v) = self.number() else { self.at = at; return None };
        if v > isize::MAX as u128 + neg as u128 { self.bad(a); return Some(0) }
        Some(if neg { (v as i128).wrapping_neg() as isize } else { v as isize })
    }
    fn path(&mut self) -> R<N> {
        let from = self.at;
        let x = self.path_x()?;
        Ok(n(x, from, self.at))
    }
    fn path_x(&mut self) -> R<X> {
        let mut path = vec![self.ident()?];
        loop {
            let at = self.at;
            if self.tok("::") {
                self.skip();
                if let Ok(i) = self.ident() { path.push(i); continue }
            }
            self.at = at;
            break;
        }
        let (at, was) = (self.at, self.bad);
        if self.tok("(") {
            let from = self.at - 1;
            let mut args = vec![];
            loop {
                if self.tok(")") { self.args_at = from; return Ok(X::Path(path, Args::Call(args))) }
                match self.expr() { Ok(e) => args.push(e), Err(_) => break }
                if self.tok(",") { continue }
                if self.tok(")") { self.args_at = from; return Ok(X::Path(path, Args::Call(args))) }
                break;
            }
        } else if self.tok("[") {
            let from = self.at - 1;
            let a = self.index();
            if self.tok("..") {
                let z = self.index();
                if self.tok("]") { self.args_at = from; return Ok(X::Path(path, Args::Slice(a, z))) }
            }
        }
        self.at = at;
        self.bad = was;
        Ok(X::Path(path, Args::None))
    }
    fn terminal(&mut self) -> R<N> {
        let from = self.at;
        if self.is("\"") { let x = X::Str(self.string(from)?); return Ok(n(x, from, self.at)) }
        if self.is("i\"") { self.at += 1; let x = X::Insens(self.string(from)?); return Ok(n(x, from, self.at)) }
        if self.is("'") {
            let a = self.character()?;
            if !self.tok("..") { return Err(Bad::Form) }
            self.skip();
            let z = self.character()?;
            return Ok(n(X::Range(a, z), from, self.at));
        }
        if self.is("r") {
            let at = self.at;
            self.at += 1;
            let mut m = 0;
            while self.eat("#") { m += 1 }
            if self.eat("\"") {
                let a = self.at;
                while self.peek(0).is_some() {
                    if self.is("\"") {
                        let mut k = 0;
                        while k < m && self.peek(1 + k) == Some(b'#') { k += 1 }
                        if k == m {
                            let t = self.text(a, self.at);
                            self.at += 1 + m;
                            return Ok(n(X::Str(t), from, self.at));
                        }
                    }
                    self.at += 1;
                }
            }
            self.at = at;
        }
        self.path()
    }
    /// The whole literal has no meaning if one of its escapes has none.
    fn string(&mut self, from: usize) -> R<String> {
        self.need("\"")?;
        let mut v = String::new();
        let mut good = true;
        loop {
            if self.eat("\"") { if !good { self.bad(from) } return Ok(v) }
            if self.is("\\") { let c = self.escape()?; good &= c.is_some(); v.extend(c); continue }
            match self.one() { Some(c) => v.push(c), None => return Err(Bad::Form) }
        }
    }
    fn character(&mut self) -> R<char> {
        self.need("'")?;
        let at = self.at;
        let c = if self.is("\\") { match self.escape() { Ok(c) => c, Err(_) => { self.at = at + 1; Some('\\') } } } else { Some(self.one().ok_or(Bad::Form)?) };
        self.need("'")?;
        if c.is_none() { self.bad(at - 1) }
        Ok(c.unwrap_or(' '))
    }
    /// Nothing if the escape stands for no character.
    fn escape(&mut self) -> R<Option<char>> {
        self.need("\\")?;
        let Some(c) = self.peek(0) else { return Err(Bad::Form) };
        self.at += 1;
        let plain = match c { b'"' => '"', b'\\' => '\\', b'r' => '\r', b'n' => '\n', b't' => '\t', b'0' => '\0', b'\'' => '\'', _ => '\u{1}' };
        if plain != '\u{1}' { return Ok(Some(plain)) }
        let mut v = 0;
        let max = match c {
            b'x' => {
                for _ in 0..2 { v = v * 16 + self.peek(0).and_then(hex).ok_or(Bad::Form)?; self.at += 1 }
                0x7f
            }
            b'u' => {
                self.need("{")?;
                let mut n = 0;
                while n < 6 { if let Some(d) = self.peek(0).and_then(hex) { v = v * 16 + d; self.at += 1; n += 1 } else { break } }
                if n == 0 { return Err(Bad::Form) }
                self.need("}")?;
                0x10ffff
            }
            _ => return Err(Bad::Form),
        };
        if v > max || (v >= 0xd800 && v < 0xe000) { return Ok(None) }
        char::from_u32(v).ok_or(Bad::Form).map(Some)
    }
}

fn tr(t: &Trivia) -> u8 { match t { Trivia::None => b'-', Trivia::Optional => b'~', Trivia::Mandatory => b'^' } }
fn r<T: PartialEq + Copy>(r: &Range<T>, a: Option<T>, z: Option<T>) -> bool { r.start == a && r.end == z }
pub fn eq(n: &ParseNode, x: &N) -> bool {
    use ParseExpr as E;
    match (&n.expr, &x.x) {
        (E::Str(a), X::Str(b)) | (E::Insens(a), X::Insens(b)) => a == b,
        (E::Range(a, b), X::Range(c, d)) => a == c && b == d,
        (E::Path(p, a), X::Path(q, b)) => p == q && match (a, b) {
            (None, Args::None) => true,
            (Some(PathArgs::Call(a)), Args::Call(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq(a, b)),
            (Some(PathArgs::Slice(s)), Args::Slice(a, z)) => r(s, *a, *z),
            _ => false,
        },
        (E::PosPred(a), X::Pos(b)) | (E::NegPred(a), X::Neg(b)) | (E::Opt(a), X::Opt(b)) | (E::Rep(a), X::Star(b)) | (E::RepOnce(a), X::Plus(b)) => eq(a, b),
        (E::RepRange(a, s), X::Rep(b, l, h)) => r(s, *l, *h) && eq(a, b),
        (E::Seq(a, b, t), X::Seq(c, d, u)) => tr(t) == *u && eq(a, c) && eq(b, d),
        (E::Choice(a, b), X::Alt(c, d)) => eq(a, c) && eq(b, d),
        (E::Separated(a, t), X::Sep(b, u)) => tr(t) == *u && eq(a, b),
        _ => false,
    }
}
/// Whether a part that ends at `z` is said to end there, or after the white space and the comments that follow.
pub fn ends(s: &str, z: usize, end: usize) -> bool {
    if end == z { return true }
    if end < z || end > s.len() { return false }
    let mut p = P { b: &s.as_bytes()[..end], at: z, bad: None, args_at: 0 };
    p.skip();
    p.at == end
}
/// Whether every part of an expression says where it was read from.
pub fn placed(s: &str, n: &ParseNode, x: &N) -> bool {
    use ParseExpr as E;
    n.span.start == x.a && ends(s, x.z, n.span.end) && n.span.path == std::path::Path::new("dir/x.pest") && match (&n.expr, &x.x) {
        (E::Path(_, Some(PathArgs::Call(a))), X::Path(_, Args::Call(b))) => a.iter().zip(b).all(|(a, b)| placed(s, a, b)),
        (E::PosPred(a), X::Pos(b)) | (E::NegPred(a), X::Neg(b)) | (E::Opt(a), X::Opt(b)) | (E::Rep(a), X::Star(b)) | (E::RepOnce(a), X::Plus(b)) | (E::RepRange(a, _), X::Rep(b, ..)) | (E::Separated(a, _), X::Sep(b, _)) => placed(s, a, b),
        (E::Seq(a, b, _), X::Seq(c, d, _)) | (E::Choice(a, b), X::Alt(c, d)) => placed(s, a, c) && placed(s, b, d),
        _ => true,
    }
}
/// Read `s` both ways and compare everything. Gives the reference's view.
pub fn both(s: &str) -> Option<File> {
    let mut want = read(s);
    // Nothing but the built-in modules can be imported here: there are no files.
    if want.as_ref().is_ok_and(|f| f.uses.iter().any(|u| u.path[0] != "pest")) { want = Err(Bad::Meaning) }
    let got = pest3_meta::parser::parse(s, &std::path::PathBuf::from("dir/x.pest"));
    match (want, got) {
        (Err(Bad::Form), Err(e)) => { hrt::ck(!e.to_string().is_empty(), "an error without text"); hrt::cover(0); None }
        (Err(Bad::Meaning), Err(e)) => { hrt::ck(!e.to_string().is_empty(), "an error without text"); hrt::cover(2); None }
        (Ok(f), Ok(m)) => { same(&f, &m); hrt::cover(1); Some(f) }
        (Ok(_), Err(_)) => hrt::fail("a grammar is rejected"),
        (Err(Bad::Form), Ok(_)) => hrt::fail("a text that is not a grammar is accepted"),
        (Err(Bad::Meaning), Ok(_)) => hrt::fail("something without a meaning is accepted"),
    }
}
pub fn same(f: &File, m: &GrammarModule) {
    use hrt::ck;
    ck(m.doc.grammar_doc == f.doc, "the documentation of the grammar");
    ck(m.rules.len() == f.rules.len(), "the number of rules");
    for (a, b) in m.rules.iter().zip(&f.rules) {
        ck(a.name == b.name, "the name of a rule");
        ck(a.args == b.args, "the parameters of a rule");
        ck(a.silent == b.silent, "whether a rule is silent");
        ck(a.doc == b.doc, "the documentation of a rule");
        ck(eq(&a.node, &b.node), "the body of a rule");
    }
    ck(m.imports.len() == f.uses.len(), "the number of imports");
    for (a, b) in m.imports.iter().zip(&f.uses) {
        let alias = b.alias.as_ref().unwrap_or_else(|| b.path.last().unwrap());
        match a {
            Import::Builtin(n, p) => ck(n == alias && *p == b.path, "a built-in import"),
            Import::File(n, _) => ck(n == alias && b.path[0] != "pest", "a file import"),
        }
    }
}
/// Read `s` both ways and compare the places that are reported.
pub fn places(s: &str) -> u64 {
    use hrt::{ck, cover};
    use pest3_meta::parser::parse;
    let (mut want, mut bad) = read_at(s);
    if let Ok(f) = &want {
        if let Some(u) = f.uses.iter().find(|u| u.path[0] != "pest") { bad = u.at; want = Err(Bad::Meaning) }
    }
    match (want, parse(s, &std::path::PathBuf::from("dir/x.pest"))) {
        (Ok(f), Ok(m)) => {
            cover(1);
            if m.rules.len() != f.rules.len() { return 0 }
            for (a, b) in m.rules.iter().zip(&f.rules) {
                ck(a.span.start == b.a && ends(s, b.z, a.span.end), "the place of a rule");
                ck(a.span.path == std::path::Path::new("dir/x.pest"), "the file of a rule");
                // What is read is the matter of other properties.
                if eq(&a.node, &b.node) { ck(placed(s, &a.node, &b.node), "the place of an expression") }
            }
            1
        }
        (Err(Bad::Meaning), Err(e)) => {
            cover(2);
            let at = span_of(&e);
            ck(at.0 == bad.0 && ends(s, bad.1, at.1), "the place of something without a meaning");
            lines(s, &e);
            2
        }
        (Err(Bad::Form), Err(e)) => {
            cover(0);
            let (a, z) = span_of(&e);
            ck(a == z && z <= s.len() && s.is_char_boundary(a), "the place of an error lies in the text");
            lines(s, &e);
            3 + a as u64
        }
        _ => 0,
    }
}
type E2<R> = pest2::error::Error<R>;
fn span_of<R: pest2::RuleType>(e: &E2<R>) -> (usize, usize) {
    match e.location { pest2::error::InputLocation::Pos(p) => (p, p), pest2::error::InputLocation::Span(s) => s }
}
fn line_col(s: &str, at: usize) -> (usize, usize) {
    let (mut l, mut c) = (1, 1);
    for b in &s.as_bytes()[..at] { if *b == b'\n' { l += 1; c = 1 } else if *b & 0xc0 != 0x80 { c += 1 } }
    (l, c)
}
fn lines<R: pest2::RuleType>(s: &str, e: &E2<R>) {
    let (a, z) = span_of(e);
    let ok = match e.line_col {
        pest2::error::LineColLocation::Pos(p) => p == line_col(s, a),
        pest2::error::LineColLocation::Span(p, q) => p == line_col(s, a) && {
            // An end just behind a line is counted on that line.
            let (l, c) = line_col(s, z);
            if c > 1 { q == (l, c) } else { let (l, c) = line_col(s, z - 1); q == (l, c + 1) }
        },
    };
    hrt::ck(ok, "the line and column of an error");
}
/// A sign that the message of an error offers, put where the error is, is accepted there.
pub fn offers(s: &str) -> u64 {
    use pest3_meta::{error::rename_meta_rule, parser::parse};
    let path = std::path::PathBuf::from("dir/x.pest");
    let Err(e) = parse(s, &path) else { hrt::cover(1); return 0 };
    let pest2::error::ErrorVariant::ParsingError { positives, .. } = &e.variant else { hrt::cover(2); return 1 };
    let at = span_of(&e).0;
    let mut k = 2;
    for r in positives {
        let name = rename_meta_rule(r);
        let Some(sign) = name.strip_prefix('`').and_then(|n| n.strip_suffix('`')) else { continue };
        hrt::cover(0);
        k += 1;
        let mut t = String::from(&s[..at]);
        t.push_str(sign);
        t.push_str(&s[at..]);
        // It is fine if something further on, or the meaning of the whole, is wrong then.
        if let Err(e) = parse(&t, &path) {
            if let pest2::error::ErrorVariant::ParsingError { .. } = e.variant { hrt::ck(span_of(&e).0 > at, "a sign that an error offers") }
        }
    }
    k
}
