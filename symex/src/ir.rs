//! Parser for the textual LLVM IR emitted by rustc (opaque pointers). Functions are parsed lazily.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Vec(n, t) => match **t { Ty::Int(w) => ((*n as u64 * w as u64 + 7) / 8).next_power_of_two(), _ => *n as u64 * t.size() },
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts.iter() { if !packed { let a = t.align(); o = (o + a - 1) / a * a } o += t.size() }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void => 1,
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Vec(..) => self.size(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, p) => if *p { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) },
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (j, t) in ts.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a }
                    if j == i { return o }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_offset"),
        }
    }
    pub fn width(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, _ => panic!("width of {:?}", self) } }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Undef,
    Zero,
    Global(Rc<str>),
    Agg(Vec<(Ty, Const)>),
    Str(Rc<Vec<u8>>),
    Gep(Ty, Box<Const>, Vec<Const>),
    Cast(Box<Const>, u32, bool), // to width; trunc/zext of int consts
    BinC(&'static str, Box<Const>, Box<Const>),
    Splat(Ty, Box<Const>),
}

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), K(Const) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, Freeze }

#[derive(Clone, Debug)]
pub enum Callee<O> { Direct(Rc<str>), Indirect(O), Asm(Rc<str>, Rc<str>) }

#[derive(Clone, Debug)]
pub enum Ins<O> {
    Bin(BinOp, Ty, u32, O, O),
    Icmp(Pred, Ty, u32, O, O),
    Cast(CastOp, Ty, Ty, u32, O),
    Select(Ty, u32, O, O, O, bool),
    Load(Ty, u32, O),
    Store(Ty, O, O),
    Alloca(u32, u64, O),
    /// base, constant offset, [(index, width, stride)]
    Gep(u32, O, i64, Vec<(O, u32, i64)>),
    ExtractValue(Ty, u32, O, Vec<u32>),
    InsertValue(Ty, u32, O, Ty, O, Vec<u32>),
    ExtractElement(Ty, u32, O, O),
    InsertElement(Ty, u32, O, O, O),
    Shuffle(Ty, u32, O, O, Vec<i32>),
    AtomicRmw(Rc<str>, Ty, u32, O, O),
    CmpXchg(Ty, u32, O, O, O),
    Call { dst: Option<u32>, ret: Ty, callee: Callee<O>, args: Vec<(Ty, O)>, fnidx: std::cell::Cell<u32> },
    Br(u32),
    CondBr(O, u32, u32),
    Switch(Ty, O, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<O>),
    Unreachable,
    Nop,
    Unsupported(Rc<str>),
}

#[derive(Debug)]
pub struct Block<O> {
    pub phis: Vec<(u32, Ty, Vec<(u32, O)>)>,
    pub ins: Vec<Ins<O>>,
}

#[derive(Debug)]
pub struct Func<O> {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block<O>>,
    pub cover: Option<u32>,
}

pub struct GlobalDef { pub ty: Ty, pub init: Option<Const>, pub constant: bool }

pub struct Module {
    pub text: String,
    pub globals: HashMap<Rc<str>, (usize, usize)>, // line range
    pub funcs: HashMap<Rc<str>, (usize, usize)>,
    pub decls: HashMap<Rc<str>, ()>,
    pub aliases: HashMap<Rc<str>, Rc<str>>,
    pub order: Vec<Rc<str>>,
}

fn strip_meta(l: &str) -> &str {
    // cut at the first ", !" outside quotes
    let b = l.as_bytes();
    let mut q = false;
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' { q = !q }
        if !q && b[i] == b',' && i + 2 < b.len() && b[i + 1] == b' ' && b[i + 2] == b'!' { return &l[..i] }
        i += 1;
    }
    l
}

fn name_at(s: &str) -> (Rc<str>, usize) {
    // s starts after '@' or '%'
    let b = s.as_bytes();
    if b.first() == Some(&b'"') {
        let e = s[1..].find('"').unwrap() + 1;
        return (Rc::from(&s[1..e]), e + 1);
    }
    let mut i = 0;
    while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) { i += 1 }
    (Rc::from(&s[..i]), i)
}

impl Module {
    pub fn load(path: &str) -> std::io::Result<Module> {
        let text = std::fs::read_to_string(path)?;
        let mut m = Module { text: String::new(), globals: HashMap::new(), funcs: HashMap::new(), decls: HashMap::new(), aliases: HashMap::new(), order: vec![] };
        let mut pos = 0;
        let b = text.as_bytes();
        while pos < b.len() {
            let e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            let line = &text[pos..e];
            if line.starts_with('@') {
                let (n, l) = name_at(&line[1..]);
                let rest = &line[1 + l..];
                if let Some(i) = rest.find(" alias ") {
                    if let Some(at) = rest[i..].rfind('@') { let (t, _) = name_at(&rest[i + at + 1..]); m.aliases.insert(n, t); }
                } else { m.globals.insert(n, (pos, e)); }
            } else if line.starts_with("define ") {
                let at = find_fn_name(line);
                let (n, _) = name_at(&line[at + 1..]);
                let end = text[e..].find("\n}").map(|x| e + x + 2).unwrap();
                m.order.push(n.clone());
                m.funcs.insert(n, (pos, end));
                pos = end;
                continue;
            } else if line.starts_with("declare ") {
                let at = find_fn_name(line);
                let (n, _) = name_at(&line[at + 1..]);
                m.decls.insert(n, ());
            }
            pos = e + 1;
        }
        m.text = text;
        Ok(m)
    }
    pub fn global(&self, n: &str) -> Option<GlobalDef> {
        let (s, e) = *self.globals.get(n)?;
        let line = strip_meta(&self.text[s..e]);
        let (_, l) = name_at(&line[1..]);
        let mut p = P::new(&line[1 + l..]);
        p.expect("=");
        let mut external = false;
        let constant;
        loop {
            p.ws();
            if p.s[p.i..].starts_with("thread_local(") { let e = p.s[p.i..].find(')').unwrap(); p.i += e + 1; continue }
            let w = p.word();
            match w {
                "external" | "extern_weak" => external = true,
                "constant" => { constant = true; break }
                "global" => { constant = false; break }
                "" => panic!("global {}", line),
                _ => {}
            }
        }
        let ty = p.ty();
        let init = if external { None } else { Some(p.konst(&ty)) };
        Some(GlobalDef { ty, init, constant })
    }
    pub fn parse_func(&self, n: &str) -> Option<Func<Opd>> {
        let (s, e) = *self.funcs.get(n)?;
        Some(parse_func(n, &self.text[s..e]))
    }
}

fn find_fn_name(line: &str) -> usize {
    // first '@' outside parens/quotes
    let b = line.as_bytes();
    let (mut d, mut q) = (0, false);
    for i in 0..b.len() {
        match b[i] {
            b'"' => q = !q,
            b'(' if !q => d += 1,
            b')' if !q => d -= 1,
            b'@' if d == 0 => return i,
            _ => {}
        }
    }
    panic!("no fn name: {}", line)
}

pub struct P<'a> {
    s: &'a str,
    i: usize,
    regs: Option<*mut HashMap<String, u32>>,
}

impl<'a> P<'a> {
    fn new(s: &'a str) -> Self { P { s, i: 0, regs: None } }
    fn ws(&mut self) { let b = self.s.as_bytes(); while self.i < b.len() && (b[self.i] == b' ' || b[self.i] == b'\t' || b[self.i] == b'\n') { self.i += 1 } }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.as_bytes().get(self.i).unwrap_or(&0) }
    fn eat(&mut self, t: &str) -> bool { self.ws(); if self.s[self.i..].starts_with(t) { self.i += t.len(); true } else { false } }
    fn expect(&mut self, t: &str) { if !self.eat(t) { panic!("expected {:?} at {:?} in {:?}", t, &self.s[self.i..].chars().take(40).collect::<String>(), self.s.chars().take(300).collect::<String>()) } }
    fn word(&mut self) -> &'a str {
        self.ws();
        let b = self.s.as_bytes();
        let st = self.i;
        while self.i < b.len() && (b[self.i].is_ascii_alphanumeric() || b[self.i] == b'_' || b[self.i] == b'.') { self.i += 1 }
        &self.s[st..self.i]
    }
    fn peek_word(&mut self) -> &'a str { self.ws(); let sv = self.i; let w = self.word(); self.i = sv; w }
    fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.word(); true } else { false } }
    fn uint(&mut self) -> u64 { self.ws(); let w = self.word(); w.parse().unwrap_or_else(|_| panic!("uint {:?} in {:?}", w, self.s)) }
    fn int(&mut self) -> u128 {
        self.ws();
        if self.eat("-") { let v: u128 = self.word().parse().unwrap(); v.wrapping_neg() } else { self.word().parse().unwrap_or_else(|_| panic!("int in {:?}", self.s)) }
    }
    fn skip_group(&mut self) {
        let b = self.s.as_bytes();
        let (mut d, mut q) = (0, false);
        loop {
            match b[self.i] {
                b'"' => q = !q,
                b'(' if !q => d += 1,
                b')' if !q => { d -= 1; if d == 0 { self.i += 1; return } }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn is_ty_start(&mut self) -> bool {
        match self.peek() {
            b'{' | b'<' | b'[' => true,
            _ => {
                let w = self.peek_word();
                w == "ptr" || w == "void" || w == "float" || w == "double" || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn ty(&mut self) -> Ty {
        match self.peek() {
            b'{' => { self.i += 1; let mut v = vec![]; if self.eat("}") { return Ty::Struct(Rc::new(v), false) } loop { v.push(self.ty()); if self.eat("}") { break } self.expect(","); } Ty::Struct(Rc::new(v), false) }
            b'[' => { self.i += 1; let n = self.uint(); self.expect("x"); let t = self.ty(); self.expect("]"); Ty::Arr(n, Rc::new(t)) }
            b'<' => {
                self.i += 1;
                if self.eat("{") {
                    let mut v = vec![];
                    if !self.eat("}") { loop { v.push(self.ty()); if self.eat("}") { break } self.expect(","); } }
                    self.expect(">");
                    Ty::Struct(Rc::new(v), true)
                } else { let n = self.uint(); self.expect("x"); let t = self.ty(); self.expect(">"); Ty::Vec(n as u32, Rc::new(t)) }
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" => Ty::Float(16),
                    _ => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {:?} in {:?}", w, self.s.chars().take(400).collect::<String>()))),
                }
            }
        }
    }
    fn attrs(&mut self) {
        // parameter attributes before a value
        loop {
            self.ws();
            let w = self.peek_word();
            if w.is_empty() { return }
            match w {
                "noundef" | "zeroext" | "signext" | "noalias" | "nonnull" | "readonly" | "writeonly" | "readnone" | "nofree" | "nocapture" | "returned" | "inreg" | "immarg" | "nest" | "swiftself" | "dead_on_unwind" | "writable" | "noext" | "dead_on_return" | "allocptr" | "allocalign" | "inbounds" => { self.word(); if self.s.as_bytes().get(self.i) == Some(&b'(') { self.skip_group() } }
                "align" => { self.word(); if self.peek() == b'(' { self.skip_group() } else { self.uint(); } }
                "sret" | "byval" | "captures" | "dereferenceable" | "dereferenceable_or_null" | "range" | "initializes" | "nofpclass" | "elementtype" | "preallocated" | "byref" | "inalloca" => { self.word(); self.ws(); self.skip_group() }
                _ => return,
            }
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        self.expect("c\"");
        let b = self.s.as_bytes();
        let mut v = vec![];
        while b[self.i] != b'"' {
            if b[self.i] == b'\\' {
                if b[self.i + 1] == b'\\' { v.push(b'\\'); self.i += 2; continue }
                v.push(u8::from_str_radix(&self.s[self.i + 1..self.i + 3], 16).unwrap());
                self.i += 3;
            } else { v.push(b[self.i]); self.i += 1 }
        }
        self.i += 1;
        v
    }
    fn konst(&mut self, ty: &Ty) -> Const {
        match self.peek() {
            b'@' => { self.i += 1; let (n, l) = name_at(&self.s[self.i..]); self.i += l; Const::Global(n) }
            b'c' if self.s[self.i..].starts_with("c\"") => Const::Str(Rc::new(self.cstr())),
            b'{' | b'[' | b'<' => {
                let packed = self.s[self.i..].starts_with("<{");
                let close = if packed { self.i += 2; "}>" } else { let c = self.peek(); self.i += 1; match c { b'{' => "}", b'[' => "]", _ => ">" } };
                let mut v = vec![];
                if self.eat(close) { return Const::Agg(v) }
                loop {
                    let t = self.ty();
                    let c = self.konst(&t);
                    v.push((t, c));
                    if self.eat(close) { break }
                    self.expect(",");
                }
                Const::Agg(v)
            }
            b'-' | b'0'..=b'9' => {
                if let Ty::Float(_) = ty { self.i += 1; while self.i < self.s.len() && !matches!(self.s.as_bytes()[self.i], b',' | b' ' | b')' | b']' | b'}' | b'>') { self.i += 1 } return Const::Undef }
                Const::Int(self.int())
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Const::Int(1),
                    "false" => Const::Int(0),
                    "null" => Const::Int(0),
                    "none" => Const::Int(0),
                    "undef" | "poison" => Const::Undef,
                    "zeroinitializer" => Const::Zero,
                    "splat" => { self.expect("("); let t = self.ty(); let c = self.konst(&t); self.expect(")"); Const::Splat(t, Box::new(c)) }
                    "getelementptr" => {
                        while !matches!(self.peek(), b'(') { self.word(); if self.s[self.i..].starts_with('(') && self.s[..self.i].ends_with("inrange") { self.skip_group() } }
                        self.expect("(");
                        let t = self.ty();
                        self.expect(",");
                        let bt = self.ty();
                        let base = self.konst(&bt);
                        let mut idx = vec![];
                        while self.eat(",") { let it = self.ty(); self.attrs(); idx.push(self.konst(&it)) }
                        self.expect(")");
                        Const::Gep(t, Box::new(base), idx)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" | "zext" | "sext" | "ptrtoaddr" => {
                        while self.peek() != b'(' { self.word(); }
                        self.expect("(");
                        let t = self.ty();
                        let c = self.konst(&t);
                        self.expect("to");
                        let to = self.ty();
                        self.expect(")");
                        if w == "trunc" { Const::Cast(Box::new(c), to.width(), false) } else { c }
                    }
                    "add" | "sub" | "xor" | "mul" | "and" | "or" => {
                        while self.peek() != b'(' { self.word(); }
                        self.expect("(");
                        let t = self.ty();
                        let a = self.konst(&t);
                        self.expect(",");
                        let t2 = self.ty();
                        let b = self.konst(&t2);
                        self.expect(")");
                        let op = match w { "add" => "add", "sub" => "sub", "xor" => "xor", "mul" => "mul", "and" => "and", _ => "or" };
                        Const::BinC(op, Box::new(a), Box::new(b))
                    }
                    _ => panic!("const {:?} in {:?}", w, self.s.chars().take(300).collect::<String>()),
                }
            }
        }
    }
    fn reg(&mut self, name: &str) -> u32 {
        let m = unsafe { &mut *self.regs.unwrap() };
        let n = m.len() as u32;
        *m.entry(name.to_string()).or_insert(n)
    }
    fn val(&mut self, ty: &Ty) -> Opd {
        self.attrs();
        if self.peek() == b'%' {
            self.i += 1;
            let (n, l) = name_at(&self.s[self.i..]);
            self.i += l;
            Opd::Reg(self.reg(&n))
        } else { Opd::K(self.konst(ty)) }
    }
    fn tyval(&mut self) -> (Ty, Opd) { let t = self.ty(); let v = self.val(&t); (t, v) }
}

fn parse_func(name: &str, text: &str) -> Func<Opd> {
    let mut regs: HashMap<String, u32> = HashMap::new();
    let nl = text.find('\n').unwrap();
    let head = &text[..nl];
    let at = find_fn_name(head);
    let (_, l) = name_at(&head[at + 1..]);
    let mut p = P::new(&head[at + 1 + l..]);
    p.regs = Some(&mut regs);
    p.expect("(");
    let mut params = vec![];
    let mut pn = 0;
    if !p.eat(")") {
        loop {
            if p.eat("...") { p.expect(")"); break }
            let _t = p.ty();
            p.attrs();
            if p.peek() == b'%' {
                p.i += 1;
                let (n, l) = name_at(&p.s[p.i..]);
                p.i += l;
                params.push(p.reg(&n));
            } else { params.push(p.reg(&pn.to_string())); }
            pn += 1;
            if p.eat(")") { break }
            p.expect(",");
        }
    }
    // logical lines
    let mut blocks: Vec<(String, Vec<String>)> = vec![];
    let mut cur: Option<(String, Vec<String>)> = None;
    let body = &text[nl + 1..text.len() - 1];
    let mut in_switch = false;
    for raw in body.lines() {
        let t = raw.trim_start();
        if t.is_empty() || t.starts_with(';') || t.starts_with('#') { continue }
        if !raw.starts_with(' ') {
            // label
            let lab = raw.split("  ").next().unwrap();
            let lab = lab.split(" ;").next().unwrap().trim().trim_end_matches(':').trim_matches('"').to_string();
            if let Some(c) = cur.take() { blocks.push(c) }
            cur = Some((lab, vec![]));
            continue;
        }
        if cur.is_none() { cur = Some((params.len().to_string(), vec![])) }
        let lines = &mut cur.as_mut().unwrap().1;
        if in_switch {
            let l = lines.last_mut().unwrap();
            l.push(' ');
            l.push_str(strip_meta(t));
            if t.starts_with(']') { in_switch = false }
            continue;
        }
        if t.starts_with("to label") { let l = lines.last_mut().unwrap(); l.push(' '); l.push_str(strip_meta(t)); continue }
        if t == "cleanup" || t.starts_with("catch ") || t.starts_with("filter ") { continue }
        let s = strip_meta(t).to_string();
        if s.starts_with("switch ") && s.ends_with('[') { in_switch = true }
        lines.push(s);
    }
    if let Some(c) = cur.take() { blocks.push(c) }
    let labels: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
    let mut out = vec![];
    let regs_ptr: *mut HashMap<String, u32> = &mut regs;
    for (_, lines) in &blocks {
        let mut b = Block { phis: vec![], ins: vec![] };
        for l in lines {
            let mut p = P::new(l);
            p.regs = Some(regs_ptr);
            parse_ins(&mut p, &labels, &mut b);
        }
        out.push(b);
    }
    Func { name: Rc::from(name), params, nregs: regs.len() as u32, blocks: out, cover: None }
}

fn label(p: &mut P, labels: &HashMap<String, u32>) -> u32 {
    p.expect("label");
    p.expect("%");
    let (n, l) = name_at(&p.s[p.i..]);
    p.i += l;
    *labels.get(&*n).unwrap_or_else(|| panic!("label {} in {:?}", n, p.s))
}

fn parse_ins(p: &mut P, labels: &HashMap<String, u32>, b: &mut Block<Opd>) {
    let mut dst = None;
    if p.peek() == b'%' {
        p.i += 1;
        let (n, l) = name_at(&p.s[p.i..]);
        p.i += l;
        dst = Some(p.reg(&n));
        p.expect("=");
    }
    let op = p.word();
    let d = dst.unwrap_or(u32::MAX);
    let bin = |o: &str| Some(match o {
        "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr,
        "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, _ => return None });
    let cast = |o: &str| Some(match o {
        "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt, "inttoptr" => CastOp::IntToPtr, "bitcast" => CastOp::Bitcast, _ => return None });
    if let Some(o) = bin(op) {
        while !p.is_ty_start() { p.word(); }
        let t = p.ty();
        let x = p.val(&t);
        p.expect(",");
        let y = p.val(&t);
        b.ins.push(Ins::Bin(o, t, d, x, y));
        return;
    }
    if let Some(o) = cast(op) {
        while !p.is_ty_start() { p.word(); }
        let (t, v) = p.tyval();
        p.expect("to");
        let to = p.ty();
        b.ins.push(Ins::Cast(o, t, to, d, v));
        return;
    }
    match op {
        "icmp" => {
            p.eat_word("samesign");
            let w = p.word();
            let pr = match w { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!("pred {}", w) };
            let t = p.ty();
            let x = p.val(&t);
            p.expect(",");
            let y = p.val(&t);
            b.ins.push(Ins::Icmp(pr, t, d, x, y));
        }
        "phi" => {
            let t = p.ty();
            let mut v = vec![];
            loop {
                p.expect("[");
                let x = p.val(&t);
                p.expect(",");
                p.expect("%");
                let (n, l) = name_at(&p.s[p.i..]);
                p.i += l;
                p.expect("]");
                v.push((labels[&*n], x));
                if !p.eat(",") { break }
            }
            b.phis.push((d, t, v));
        }
        "select" => {
            let (ct, c) = p.tyval();
            p.expect(",");
            let (t, x) = p.tyval();
            p.expect(",");
            let (_, y) = p.tyval();
            b.ins.push(Ins::Select(t, d, c, x, y, matches!(ct, Ty::Vec(..))));
        }
        "freeze" => { let (t, v) = p.tyval(); b.ins.push(Ins::Cast(CastOp::Freeze, t.clone(), t, d, v)) }
        "load" => {
            p.eat_word("atomic");
            p.eat_word("volatile");
            let t = p.ty();
            p.expect(",");
            let (_, a) = p.tyval();
            b.ins.push(Ins::Load(t, d, a));
        }
        "store" => {
            p.eat_word("atomic");
            p.eat_word("volatile");
            let (t, v) = p.tyval();
            p.expect(",");
            let (_, a) = p.tyval();
            b.ins.push(Ins::Store(t, v, a));
        }
        "alloca" => {
            let t = p.ty();
            let mut n = Opd::K(Const::Int(1));
            if p.eat(",") && p.is_ty_start() { n = p.tyval().1 }
            b.ins.push(Ins::Alloca(d, t.size(), n));
        }
        "getelementptr" => {
            while !p.is_ty_start() { p.word(); if p.s.as_bytes().get(p.i) == Some(&b'(') { p.skip_group() } }
            let t = p.ty();
            p.expect(",");
            let (_, base) = p.tyval();
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = t.clone();
            let mut first = true;
            while p.eat(",") {
                let (it, v) = p.tyval();
                let stride = if first { first = false; cur.size() as i64 } else {
                    match cur.clone() {
                        Ty::Struct(..) => {
                            if let Opd::K(Const::Int(k)) = &v { off += cur.field_offset(*k as usize) as i64; if let Ty::Struct(ts, _) = cur.clone() { cur = ts[*k as usize].clone() } continue } else { panic!("gep struct index") }
                        }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => { cur = (*e).clone(); cur.size() as i64 }
                        _ => panic!("gep {:?}", p.s),
                    }
                };
                match &v {
                    Opd::K(Const::Int(k)) => { let w = it.width(); off = off.wrapping_add((crate::term::sx(*k & crate::term::mask(w), w) as i64).wrapping_mul(stride)) }
                    _ => idx.push((v, it.width(), stride)),
                }
            }
            b.ins.push(Ins::Gep(d, base, off, idx));
        }
        "extractvalue" => {
            let (t, v) = p.tyval();
            let mut ix = vec![];
            while p.eat(",") { ix.push(p.uint() as u32) }
            b.ins.push(Ins::ExtractValue(t, d, v, ix));
        }
        "insertvalue" => {
            let (t, v) = p.tyval();
            p.expect(",");
            let (t2, e) = p.tyval();
            let mut ix = vec![];
            while p.eat(",") { ix.push(p.uint() as u32) }
            b.ins.push(Ins::InsertValue(t, d, v, t2, e, ix));
        }
        "extractelement" => { let (t, v) = p.tyval(); p.expect(","); let (_, i) = p.tyval(); b.ins.push(Ins::ExtractElement(t, d, v, i)) }
        "insertelement" => { let (t, v) = p.tyval(); p.expect(","); let (_, e) = p.tyval(); p.expect(","); let (_, i) = p.tyval(); b.ins.push(Ins::InsertElement(t, d, v, e, i)) }
        "shufflevector" => {
            let (t, v) = p.tyval();
            p.expect(",");
            let (_, v2) = p.tyval();
            p.expect(",");
            let mt = p.ty();
            let n = if let Ty::Vec(n, _) = mt { n } else { panic!() };
            let m = match p.konst(&mt) {
                Const::Zero => vec![0; n as usize],
                Const::Undef => vec![-1; n as usize],
                Const::Splat(_, c) => { let k = if let Const::Int(k) = *c { k as i32 } else { -1 }; vec![k; n as usize] }
                Const::Agg(v) => v.iter().map(|(_, c)| if let Const::Int(k) = c { *k as i32 } else { -1 }).collect(),
                c => panic!("mask {:?}", c),
            };
            b.ins.push(Ins::Shuffle(t, d, v, v2, m));
        }
        "atomicrmw" => {
            p.eat_word("volatile");
            let o = p.word();
            let (_, a) = p.tyval();
            p.expect(",");
            let (t, v) = p.tyval();
            b.ins.push(Ins::AtomicRmw(Rc::from(o), t, d, a, v));
        }
        "cmpxchg" => {
            p.eat_word("weak");
            p.eat_word("volatile");
            let (_, a) = p.tyval();
            p.expect(",");
            let (t, e) = p.tyval();
            p.expect(",");
            let (_, n) = p.tyval();
            b.ins.push(Ins::CmpXchg(t, d, a, e, n));
        }
        "fence" => {}
        "br" => {
            if p.peek_word() == "label" { let l = label(p, labels); b.ins.push(Ins::Br(l)) }
            else { let (_, c) = p.tyval(); p.expect(","); let x = label(p, labels); p.expect(","); let y = label(p, labels); b.ins.push(Ins::CondBr(c, x, y)) }
        }
        "switch" => {
            let (t, v) = p.tyval();
            p.expect(",");
            let d = label(p, labels);
            p.expect("[");
            let mut cs = vec![];
            while !p.eat("]") {
                let t = p.ty();
                let k = p.konst(&t);
                p.expect(",");
                let l = label(p, labels);
                if let Const::Int(k) = k { cs.push((k & crate::term::mask(t.width()), l)) } else { panic!() }
            }
            b.ins.push(Ins::Switch(t, v, d, cs));
        }
        "ret" => {
            let t = p.ty();
            if t == Ty::Void { b.ins.push(Ins::Ret(t, None)) } else { let v = p.val(&t); b.ins.push(Ins::Ret(t, Some(v))) }
        }
        "unreachable" => b.ins.push(Ins::Unreachable),
        "landingpad" => {}
        "resume" => b.ins.push(Ins::Unreachable),
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if op != "call" && op != "invoke" { p.word(); }
            let ins = parse_call(p, dst);
            let normal = if op == "invoke" {
                // find "to label"
                let at = p.s.rfind("to label").unwrap();
                p.i = at + 2;
                Some(label(p, labels))
            } else { None };
            if let Some(i) = ins { b.ins.push(i) }
            if let Some(n) = normal { b.ins.push(Ins::Br(n)) }
        }
        _ => b.ins.push(Ins::Unsupported(Rc::from(p.s))),
    }
}

fn parse_call(p: &mut P, dst: Option<u32>) -> Option<Ins<Opd>> {
    // calling convention + return attributes
    for skip in ["@llvm.lifetime.", "@llvm.experimental.noalias", "@llvm.dbg.", "@llvm.prefetch", "@llvm.assume"] {
        if p.s.contains(skip) { return None }
    }
    while !p.is_ty_start() {
        let w = p.word();
        if w.is_empty() { panic!("call {:?}", p.s) }
        if p.peek() == b'(' { p.skip_group() }
    }
    let ret = p.ty();
    // optional function type
    if p.peek() == b'(' { p.skip_group() }
    p.attrs();
    let callee = match p.peek() {
        b'@' => { p.i += 1; let (n, l) = name_at(&p.s[p.i..]); p.i += l; Callee::Direct(n) }
        b'%' => Callee::Indirect(p.val(&Ty::Ptr)),
        _ => {
            if p.peek_word() == "asm" {
                p.word();
                while p.peek() != b'"' { p.word(); }
                p.i += 1;
                let e = p.s[p.i..].find('"').unwrap();
                let a = &p.s[p.i..p.i + e];
                p.i += e + 1;
                p.expect(",");
                p.expect("\"");
                let e = p.s[p.i..].find('"').unwrap();
                let c = &p.s[p.i..p.i + e];
                p.i += e + 1;
                Callee::Asm(Rc::from(a), Rc::from(c))
            } else { Callee::Indirect(p.val(&Ty::Ptr)) }
        }
    };
    p.expect("(");
    let mut args = vec![];
    if !p.eat(")") {
        loop {
            if p.eat_word("metadata") { // skip metadata operand
                p.ws();
                while !matches!(p.peek(), b',' | b')') { p.i += 1 }
                args.push((Ty::Int(1), Opd::K(Const::Int(0))));
            } else { args.push(p.tyval()); }
            if p.eat(")") { break }
            p.expect(",");
        }
    }
    Some(Ins::Call { dst, ret, callee, args, fnidx: std::cell::Cell::new(u32::MAX) })
}
