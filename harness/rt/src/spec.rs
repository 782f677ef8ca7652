//! Reference semantics: a direct interpreter of parsing expressions.
//! It is written from the documentation of the language, shares no code with the parser under test,
//! and returns both the end position and the list of pairs (preorder).
use crate::char_at;

#[derive(Clone, Copy)]
pub enum T { N, O, M }
use E::*;
pub enum E {
    /// Exact text.
    S(&'static str),
    /// Text, ASCII case ignored.
    I(&'static str),
    /// Inclusive character range.
    R(char, char),
    /// One character of a class.
    C(fn(u32) -> bool),
    Any, Soi, Eoi, Nl, Never,
    Seq(&'static [(T, E)]),
    Alt(&'static [E]),
    Opt(&'static E),
    Rep(&'static E, usize, usize, T),
    Pos(&'static E),
    Neg(&'static E),
    Push(&'static E),
    Peek, PeekAll, Drop, Pop, PopAll,
    Slice(isize, Option<isize>),
    /// Rule: number in the grammar.
    Rule(usize),
    /// Rule with its own body (instances of generic rules): id, silent, body.
    Inst(u32, bool, &'static E),
    /// An expression defined elsewhere (for expressions that contain themselves).
    Ref(&'static E),
    /// In the terms of an imported grammar, whose rules are numbered from the given offset.
    In(&'static Gram, u32, &'static E),
    /// Back in the terms of the grammar that imports (arguments of imported rules).
    Out(&'static E),
}
pub struct Gram {
    /// (id that pairs carry, silent, body)
    pub rules: &'static [(u32, bool, E)],
    pub opt: Option<E>,
    pub man: Option<E>,
}
unsafe impl Sync for E {}
unsafe impl Sync for Gram {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Node { pub rule: u32, pub start: usize, pub end: usize, pub depth: usize }

/// What a failure report lists: a rule that was expected (kind 0), one that was not (1), an empty stack (2), a slice out of range (3).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Att { pub upper: Option<u32>, pub kind: u8, pub rule: u32, pub a: isize, pub z: Option<isize> }

pub struct M<'a> {
    pub g: &'a Gram, pub b: &'a [u8], pub stack: Vec<(usize, usize)>, pub out: Vec<Node>, depth: usize, mute: usize,
    /// Failure report: furthest place, and what is listed for it.
    pub far: usize, pub att: Vec<Att>,
    open: Vec<(u32, usize, bool)>, negative: bool,
    /// Numbers of the current grammar's rules start here; grammars that import it.
    base: u32, mods: Vec<(&'a Gram, u32)>,
}

pub const INF: usize = usize::MAX;

impl<'a> M<'a> {
    pub fn new(g: &'a Gram, s: &'a str) -> Self { M { g, b: s.as_bytes(), stack: Vec::new(), out: Vec::new(), depth: 0, mute: 0, far: 0, att: Vec::new(), open: Vec::new(), negative: false, base: 0, mods: Vec::new() } }
    /// Something happened at `p`.
    fn reach(&mut self, p: usize) -> bool {
        if p < self.far { return false }
        if p > self.far { self.far = p; self.att.clear() }
        true
    }
    fn note(&mut self, p: usize, kind: u8, rule: u32, a: isize, z: Option<isize>) {
        let mut upper = None;
        let mut i = self.open.len();
        while i > 0 { i -= 1; if self.open[i].1 != p { upper = Some(self.open[i].0); break } }
        let x = Att { upper, kind, rule, a, z };
        for y in &self.att { if *y == x { return } }
        self.att.push(x)
    }
    fn stack_error(&mut self, p: usize, kind: u8, a: isize, z: Option<isize>) { if self.reach(p) { self.note(p, kind, 0, a, z) } }
    fn enter(&mut self, id: u32, p: usize) {
        if let Some(x) = self.open.last_mut() { x.2 = true }
        self.open.push((id, p, false));
    }
    fn leave(&mut self, ok: bool) {
        let Some((id, p, called)) = self.open.pop() else { return };
        if called { return }
        if self.reach(p) && ok == self.negative { let k = self.negative as u8; self.note(p, k, id, 0, None) }
    }
    /// The whole input: the expression, then the end of input, recorded as rule `eoi`.
    pub fn whole(&mut self, e: &E, eoi: u32) -> Option<usize> { self.whole_at(e, 0, eoi) }
    pub fn whole_at(&mut self, e: &E, at: usize, eoi: u32) -> Option<usize> {
        let q = self.run(e, at)?;
        self.enter(eoi, q);
        let ok = q == self.b.len();
        self.leave(ok);
        if ok { Some(q) } else { None }
    }

    fn lit(&self, s: &[u8], p: usize) -> Option<usize> {
        if self.b.len() - p < s.len() { return None }
        for i in 0..s.len() { if self.b[p + i] != s[i] { return None } }
        Some(p + s.len())
    }
    fn again(&self, sp: (usize, usize), p: usize) -> Option<usize> {
        let n = sp.1 - sp.0;
        if self.b.len() - p < n { return None }
        for i in 0..n { if self.b[p + i] != self.b[sp.0 + i] { return None } }
        Some(p + n)
    }
    pub fn trivia(&mut self, t: T, p: usize) -> Option<usize> {
        let g = self.g;
        let e = match t { T::N => return Some(p), T::O => &g.opt, T::M => &g.man };
        match e {
            None => Some(p),
            Some(e) => { self.mute += 1; let r = self.run(e, p); self.mute -= 1; r }
        }
    }
    /// Run with everything undone on failure.
    fn attempt(&mut self, e: &E, p: usize) -> Option<usize> {
        let (s, o) = (self.stack.clone(), self.out.len());
        let r = self.run_s(e, p);
        if r.is_none() { self.stack = s; self.out.truncate(o) }
        r
    }
    fn run_s(&mut self, e: &E, p: usize) -> Option<usize> { self.run(e, p) }
    pub fn rule(&mut self, id: u32, silent: bool, e: &E, p: usize) -> Option<usize> {
        let at = self.out.len();
        let show = self.mute == 0 && !silent;
        if show { self.out.push(Node { rule: id, start: p, end: p, depth: self.depth }) }
        if silent { self.mute += 1 }
        self.depth += 1;
        self.enter(id, p);
        let r = self.run(e, p);
        self.leave(r.is_some());
        self.depth -= 1;
        if silent { self.mute -= 1 }
        match r {
            Some(q) => { if show { self.out[at].end = q } Some(q) }
            None => { self.out.truncate(at); None }
        }
    }
    pub fn run(&mut self, e: &E, p: usize) -> Option<usize> {
        match e {
            S(s) => self.lit(s.as_bytes(), p),
            I(s) => {
                let s = s.as_bytes();
                if self.b.len() - p < s.len() { return None }
                for i in 0..s.len() {
                    let (x, y) = (self.b[p + i], s[i]);
                    let letter = (y >= b'a' && y <= b'z') || (y >= b'A' && y <= b'Z');
                    if x != y && !(letter && x == y ^ 0x20) { return None }
                }
                Some(p + s.len())
            }
            R(a, z) => { let (c, n) = char_at(self.b, p)?; if c >= *a as u32 && c <= *z as u32 { Some(p + n) } else { None } }
            C(f) => { let (c, n) = char_at(self.b, p)?; if f(c) { Some(p + n) } else { None } }
            Any => { let (_, n) = char_at(self.b, p)?; Some(p + n) }
            Soi => if p == 0 { Some(p) } else { None },
            Eoi => if p == self.b.len() { Some(p) } else { None },
            Nl => self.lit(b"\r\n", p).or_else(|| self.lit(b"\n", p)).or_else(|| self.lit(b"\r", p)),
            Never => None,
            Seq(v) => {
                let mut q = p;
                for (i, (t, x)) in v.iter().enumerate() {
                    if i > 0 { q = self.trivia(*t, q)? }
                    q = self.run(x, q)?;
                }
                Some(q)
            }
            Alt(v) => { for x in v.iter() { if let Some(q) = self.attempt(x, p) { return Some(q) } } None }
            Opt(x) => Some(self.attempt(x, p).unwrap_or(p)),
            Rep(x, min, max, t) => {
                let mut q = p;
                let mut k = 0;
                while k < *max {
                    let (s, o) = (self.stack.clone(), self.out.len());
                    let r = if k == 0 { Some(q) } else { self.trivia(*t, q) };
                    let r = match r { Some(n) => self.run(x, n), None => None };
                    match r {
                        Some(n) => { q = n; k += 1 }
                        None => { self.stack = s; self.out.truncate(o); break }
                    }
                }
                if k < *min { None } else { Some(q) }
            }
            Pos(x) => {
                let (s, o) = (self.stack.clone(), self.out.len());
                let before = self.negative;
                self.negative = false;
                let r = self.run(x, p);
                self.negative = before;
                self.stack = s; self.out.truncate(o);
                if r.is_some() { Some(p) } else { None }
            }
            Neg(x) => {
                let (s, o) = (self.stack.clone(), self.out.len());
                let before = self.negative;
                self.negative = true;
                let r = self.run(x, p);
                self.negative = before;
                self.stack = s; self.out.truncate(o);
                if r.is_some() { None } else { Some(p) }
            }
            Push(x) => { let q = self.run(x, p)?; self.stack.push((p, q)); Some(q) }
            Peek => { let Some(t) = self.stack.last().copied() else { self.stack_error(p, 2, 0, None); return None }; self.again(t, p) }
            Pop => { let Some(t) = self.stack.pop() else { self.stack_error(p, 2, 0, None); return None }; self.again(t, p) }
            Drop => { if self.stack.pop().is_none() { self.stack_error(p, 2, 0, None); return None } Some(p) }
            PeekAll | PopAll => {
                let mut q = p;
                for i in (0..self.stack.len()).rev() { q = self.again(self.stack[i], q)? }
                if let PopAll = e { self.stack.clear() }
                Some(q)
            }
            Slice(a, z) => {
                let n = self.stack.len() as isize;
                let fix = |i: isize| -> Option<isize> { let j = if i < 0 { n + i } else { i }; if j < 0 || j > n { None } else { Some(j) } };
                let (a, z) = match (fix(*a), match z { Some(z) => fix(*z), None => Some(n) }) {
                    (Some(a), Some(z)) => (a, z),
                    _ => { self.stack_error(p, 3, *a, *z); return None }
                };
                let mut q = p;
                let mut i = a;
                while i < z { q = self.again(self.stack[i as usize], q)?; i += 1 }
                Some(q)
            }
            Rule(k) => { let (id, silent, x) = &self.g.rules[*k]; self.rule(self.base + *id, *silent, x, p) }
            Inst(id, silent, x) => self.rule(self.base + *id, *silent, x, p),
            Ref(x) => self.run(x, p),
            In(g, off, x) => {
                self.mods.push((self.g, self.base));
                self.g = g;
                self.base += *off;
                let r = self.run(x, p);
                let Some((g, b)) = self.mods.pop() else { return None };
                self.g = g;
                self.base = b;
                r
            }
            Out(x) => {
                let here = (self.g, self.base);
                let Some((g, b)) = self.mods.pop() else { return None };
                self.g = g;
                self.base = b;
                let r = self.run(x, p);
                self.mods.push((g, b));
                self.g = here.0;
                self.base = here.1;
                r
            }
        }
    }
}

/// What an accessor gives, written out: one matched part, an absent option, the bounds of a list.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Part { At(usize, usize), Absent, Open, Close }
/// Whether the accessor for `is` shows something of `e`.
pub fn mentions(e: &E, is: &dyn Fn(&E) -> bool) -> bool {
    if is(e) { return true }
    match e {
        Seq(v) => { for (_, x) in v.iter() { if mentions(x, is) { return true } } false }
        Alt(v) => { for x in v.iter() { if mentions(x, is) { return true } } false }
        Opt(x) | Pos(x) | Rep(x, ..) => mentions(x, is),
        _ => false,
    }
}
impl<'a> M<'a> {
    /// Match `e` and list the direct parts that are `is`, in order of mention.
    pub fn parts(&mut self, e: &E, p: usize, is: &dyn Fn(&E) -> bool, out: &mut Vec<Part>) -> Option<usize> {
        if is(e) {
            let q = self.run(e, p)?;
            out.push(Part::At(p, q));
            return Some(q);
        }
        if !mentions(e, is) { return self.run(e, p) }
        match e {
            Seq(v) => {
                let mut q = p;
                for (i, (t, x)) in v.iter().enumerate() {
                    if i > 0 { q = self.trivia(*t, q)? }
                    q = self.parts(x, q, is, out)?;
                }
                Some(q)
            }
            Alt(v) => {
                let n = out.len();
                let mut r = None;
                for x in v.iter() {
                    let m = mentions(x, is);
                    if r.is_some() { if m { out.push(Part::Absent) } continue }
                    let (s, o) = (self.stack.clone(), out.len());
                    r = self.parts(x, p, is, out);
                    if r.is_none() { self.stack = s; out.truncate(o); if m { out.push(Part::Absent) } }
                }
                if r.is_none() { out.truncate(n) }
                r
            }
            Opt(x) => {
                let (s, o) = (self.stack.clone(), out.len());
                let r = self.parts(x, p, is, out);
                if r.is_none() { self.stack = s; out.truncate(o); out.push(Part::Absent) }
                Some(r.unwrap_or(p))
            }
            Rep(x, min, max, t) => {
                out.push(Part::Open);
                let mut q = p;
                let mut k = 0;
                while k < *max {
                    let (s, o) = (self.stack.clone(), out.len());
                    let r = if k == 0 { Some(q) } else { self.trivia(*t, q) };
                    let r = match r { Some(n) => self.parts(x, n, is, out), None => None };
                    match r {
                        Some(n) => { q = n; k += 1 }
                        None => { self.stack = s; out.truncate(o); break }
                    }
                }
                out.push(Part::Close);
                if k < *min { None } else { Some(q) }
            }
            Pos(x) => { let s = self.stack.clone(); let r = self.parts(x, p, is, out); self.stack = s; if r.is_some() { Some(p) } else { None } }
            _ => self.run(e, p),
        }
    }
}
