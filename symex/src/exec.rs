//! The symbolic interpreter.
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { C(u64), T(T), Agg(Rc<Vec<Val>>) }
#[derive(Clone, Debug)]
pub enum O { R(u32), C(Val) }

pub type F = Func<O>;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<F>,
    pub regs: Vec<Val>,
    pub block: u32,
    pub ip: u32,
    pub prev: u32,
    pub stack_mark: u32,
    pub ret_dst: u32,
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<T>,
    pub model: Rc<Vec<u8>>,
    pub nvars: u32,
    pub steps: u64,
    pub trace: Vec<Val>,
    pub hint: Option<(T, bool)>,
    /// Files that the harness put in place (path, address and length of the content), and the open ones.
    pub files: Rc<Vec<(String, u64, u64)>>,
    pub fds: Rc<Vec<(usize, u64)>>,
    /// A panic is what the harness expects from here on.
    pub refuse: bool,
}

pub struct Violation { pub kind: String, pub msg: String, pub bytes: Vec<u8>, pub stack: Vec<String> }

pub enum End { Done, Killed, Bad(String, String), Fatal(String) }
pub enum Flow { Next, Jumped, End(End), Retry }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Target { Def(u32), Ext(u32) }

pub struct Ex {
    pub m: Module,
    pub ar: Arena,
    pub smt: Smt,
    pub pending: Vec<State>,
    pub fn_ids: HashMap<Rc<str>, u32>,
    pub fn_names: Vec<Rc<str>>,
    pub fn_cache: Vec<Option<Rc<F>>>,
    pub fn_ext: Vec<Option<u32>>,
    pub fn_used: Vec<bool>,
    pub glob_ids: HashMap<Rc<str>, u32>,
    pub glob_names: Vec<Rc<str>>,
    pub glob_ro: HashMap<u32, Rc<Obj>>,
    pub covers: HashMap<u32, Vec<u8>>,
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub forks: u64,
    pub paths: u64,
    pub killed: u64,
    pub steps: u64,
    pub maxlen: usize,
    pub witnesses: Vec<(Vec<u8>, Vec<u64>)>,
    pub wit_every: u64,
    pub conc_forks: u64,
    pub fork_w: u32,
    pub verbose: bool,
    pub implied: u64,
    pub prof: Option<HashMap<Rc<str>, u64>>,
}

pub const EXT_PANIC: u32 = 0;

impl Ex {
    pub fn new(m: Module) -> Self {
        let mut e = Ex { m, ar: Arena::new(), smt: Smt::new(), pending: vec![], fn_ids: HashMap::new(), fn_names: vec![], fn_cache: vec![], fn_ext: vec![], fn_used: vec![], glob_ids: HashMap::new(), glob_names: vec![Rc::from("")], glob_ro: HashMap::new(),
            covers: HashMap::new(), params: vec![0; 8], max_steps: 200_000_000, forks: 0, paths: 0, killed: 0, steps: 0, maxlen: 0, witnesses: vec![], wit_every: 1, conc_forks: 0, fork_w: std::env::var("SYMEX_FORK_W").ok().and_then(|x| x.parse().ok()).unwrap_or(64), verbose: false, implied: 0, prof: None };
        let g: Vec<Rc<str>> = e.m.globals.keys().cloned().collect();
        let mut g = g;
        g.sort();
        for n in g { let id = e.glob_names.len() as u32; e.glob_names.push(n.clone()); e.glob_ids.insert(n, id); }
        e
    }
    pub fn fn_id(&mut self, n: &Rc<str>) -> u32 {
        if let Some(i) = self.fn_ids.get(n) { return *i }
        let i = self.fn_names.len() as u32;
        self.fn_names.push(n.clone());
        self.fn_cache.push(None);
        let ext = crate::ext::lookup(n, self.m.funcs.contains_key(n));
        self.fn_ext.push(ext);
        self.fn_used.push(false);
        self.fn_ids.insert(n.clone(), i);
        i
    }
    fn global_addr(&mut self, n: &Rc<str>) -> u64 {
        if let Some(t) = self.m.aliases.get(n).cloned() { return self.global_addr(&t) }
        if let Some(i) = self.glob_ids.get(n) { return addr_of(*i) }
        // function
        let id = self.fn_id(n);
        FN_BASE + id as u64 * 16
    }
    pub fn const_val(&mut self, ty: &Ty, c: &Const) -> Val {
        match c {
            Const::Int(k) => match ty {
                Ty::Int(w) => self.mkc(*w, *k),
                _ => Val::C(*k as u64),
            },
            Const::Undef | Const::Zero => self.zero(ty),
            Const::Global(n) => Val::C(self.global_addr(n)),
            Const::Agg(v) => Val::Agg(Rc::new(v.iter().map(|(t, c)| self.const_val(t, c)).collect())),
            Const::Str(s) => Val::Agg(Rc::new(s.iter().map(|b| Val::C(*b as u64)).collect())),
            Const::Gep(t, base, idx) => {
                let b = match self.const_val(&Ty::Ptr, base) { Val::C(x) => x, _ => panic!() };
                let mut off = 0i64;
                let mut cur = t.clone();
                for (i, ix) in idx.iter().enumerate() {
                    let k = match ix { Const::Int(k) => *k as i64, Const::Zero | Const::Undef => 0, _ => panic!("const gep idx") };
                    if i == 0 { off += k * cur.size() as i64; continue }
                    off += cur.field_offset(0) as i64;
                    match cur.clone() {
                        Ty::Struct(ts, _) => { off += cur.field_offset(k as usize) as i64; cur = ts[k as usize].clone() }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => { off += k * e.size() as i64; cur = (*e).clone() }
                        _ => panic!(),
                    }
                }
                Val::C(b.wrapping_add(off as u64))
            }
            Const::Cast(c, w, _) => { let v = self.const_val(&Ty::Int(64), c); if let Val::C(x) = v { Val::C(x & mask(*w) as u64) } else { panic!() } }
            Const::BinC(op, a, b) => {
                let (a, b) = match (self.const_val(&Ty::Int(64), a), self.const_val(&Ty::Int(64), b)) { (Val::C(a), Val::C(b)) => (a, b), _ => panic!() };
                let w = if let Ty::Int(w) = ty { *w } else { 64 };
                let r = match *op { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, "mul" => a.wrapping_mul(b), "and" => a & b, _ => a | b };
                Val::C(r & mask(w) as u64)
            }
            Const::Splat(t, c) => {
                let v = self.const_val(t, c);
                let n = if let Ty::Vec(n, _) = ty { *n } else { panic!() };
                Val::Agg(Rc::new(vec![v; n as usize]))
            }
        }
    }
    pub fn mkc(&mut self, w: u32, k: u128) -> Val {
        if w <= 64 { Val::C((k & mask(w)) as u64) } else { Val::T(self.ar.konst(w, k)) }
    }
    pub fn zero(&mut self, ty: &Ty) -> Val {
        match ty {
            Ty::Int(w) => self.mkc(*w, 0),
            Ty::Ptr | Ty::Float(_) | Ty::Void => Val::C(0),
            Ty::Vec(n, t) => { let z = self.zero(t); Val::Agg(Rc::new(vec![z; *n as usize])) }
            Ty::Arr(n, t) => { let z = self.zero(t); Val::Agg(Rc::new(vec![z; *n as usize])) }
            Ty::Struct(ts, _) => { let ts = ts.clone(); Val::Agg(Rc::new(ts.iter().map(|t| self.zero(t)).collect())) }
        }
    }
    fn init_bytes(&mut self, ty: &Ty, c: &Const, out: &mut [u8]) {
        match (ty, c) {
            (_, Const::Zero) | (_, Const::Undef) => {}
            (_, Const::Str(s)) => out[..s.len()].copy_from_slice(s),
            (Ty::Struct(..), Const::Agg(v)) | (Ty::Arr(..), Const::Agg(v)) | (Ty::Vec(..), Const::Agg(v)) => {
                for (i, (t, c)) in v.iter().enumerate() {
                    let o = ty.field_offset(i) as usize;
                    self.init_bytes(t, c, &mut out[o..]);
                }
            }
            (Ty::Int(w), Const::Int(k)) => { let n = (*w as usize + 7) / 8; out[..n].copy_from_slice(&(k & mask(*w)).to_le_bytes()[..n]) }
            (t, c) => {
                let n = t.size() as usize;
                match self.const_val(t, c) { Val::C(x) => out[..n].copy_from_slice(&x.to_le_bytes()[..n]), v => panic!("init {:?} {:?}", t, v) }
            }
        }
    }
    fn load_global(&mut self, st: &mut State, id: u32) -> bool {
        if id == 0 || id as usize >= self.glob_names.len() { return false }
        if let Some(o) = self.glob_ro.get(&id) { *st.mem.slot(id) = Some(o.clone()); return true }
        let n = self.glob_names[id as usize].clone();
        let g = self.m.global(&n).unwrap();
        let size = g.ty.size() as usize;
        let mut data = vec![0u8; size];
        if let Some(c) = &g.init { self.init_bytes(&g.ty, c, &mut data) }
        else if self.verbose { eprintln!("external global {}", n) }
        let o = Rc::new(Obj { data, sym: None, ro: g.constant });
        self.glob_ro.insert(id, o.clone());
        *st.mem.slot(id) = Some(o);
        true
    }
    pub fn func(&mut self, id: u32) -> Option<Rc<F>> {
        if let Some(f) = &self.fn_cache[id as usize] { return Some(f.clone()) }
        let n = self.fn_names[id as usize].clone();
        let f = match self.m.parse_func(&n) {
            Some(f) => f,
            None => { let a = self.m.aliases.get(&n)?.clone(); self.m.parse_func(&a)? }
        };
        let f = Rc::new(self.lower(f));
        self.fn_cache[id as usize] = Some(f.clone());
        self.fn_used[id as usize] = true;
        Some(f)
    }
    fn lower(&mut self, f: Func<Opd>) -> F {
        let blocks = f.blocks.into_iter().map(|b| {
            let phis = b.phis.into_iter().map(|(d, t, v)| { let v = v.into_iter().map(|(l, o)| (l, self.lo(&t, o))).collect(); (d, t, v) }).collect();
            let ins = b.ins.into_iter().map(|i| self.lower_ins(i)).collect();
            Block { phis, ins }
        }).collect();
        Func { name: f.name, params: f.params, nregs: f.nregs, blocks, cover: None }
    }
    fn lo(&mut self, t: &Ty, o: Opd) -> O { match o { Opd::Reg(r) => O::R(r), Opd::K(c) => O::C(self.const_val(t, &c)) } }
    fn lower_ins(&mut self, i: Ins<Opd>) -> Ins<O> {
        use Ins::*;
        let p = Ty::Ptr;
        let i64t = Ty::Int(64);
        match i {
            Bin(o, t, d, a, b) => { let (a, b) = (self.lo(&t, a), self.lo(&t, b)); Bin(o, t, d, a, b) }
            Icmp(o, t, d, a, b) => { let (a, b) = (self.lo(&t, a), self.lo(&t, b)); Icmp(o, t, d, a, b) }
            Cast(o, t, t2, d, a) => { let a = self.lo(&t, a); Cast(o, t, t2, d, a) }
            Select(t, d, c, a, b, v) => {
                let ct = if v { if let Ty::Vec(n, _) = t { Ty::Vec(n, Rc::new(Ty::Int(1))) } else { panic!() } } else { Ty::Int(1) };
                let (c, a, b) = (self.lo(&ct, c), self.lo(&t, a), self.lo(&t, b));
                Select(t, d, c, a, b, v)
            }
            Load(t, d, a) => { let a = self.lo(&p, a); Load(t, d, a) }
            Store(t, v, a) => { let (v, a) = (self.lo(&t, v), self.lo(&p, a)); Store(t, v, a) }
            Alloca(d, s, n) => { let n = self.lo(&i64t, n); Alloca(d, s, n) }
            Gep(d, b, o, ix) => { let b = self.lo(&p, b); let ix = ix.into_iter().map(|(v, w, s)| (self.lo(&Ty::Int(w), v), w, s)).collect(); Gep(d, b, o, ix) }
            ExtractValue(t, d, v, ix) => { let v = self.lo(&t, v); ExtractValue(t, d, v, ix) }
            InsertValue(t, d, v, t2, e, ix) => { let (v, e) = (self.lo(&t, v), self.lo(&t2, e)); InsertValue(t, d, v, t2, e, ix) }
            ExtractElement(t, d, v, i) => { let (v, i) = (self.lo(&t, v), self.lo(&i64t, i)); ExtractElement(t, d, v, i) }
            InsertElement(t, d, v, e, i) => { let et = if let Ty::Vec(_, e) = &t { (**e).clone() } else { panic!() }; let (v, e, i) = (self.lo(&t, v), self.lo(&et, e), self.lo(&i64t, i)); InsertElement(t, d, v, e, i) }
            Shuffle(t, d, a, b, m) => { let (a, b) = (self.lo(&t, a), self.lo(&t, b)); Shuffle(t, d, a, b, m) }
            AtomicRmw(o, t, d, a, v) => { let (a, v) = (self.lo(&p, a), self.lo(&t, v)); AtomicRmw(o, t, d, a, v) }
            CmpXchg(t, d, a, e, n) => { let (a, e, n) = (self.lo(&p, a), self.lo(&t, e), self.lo(&t, n)); CmpXchg(t, d, a, e, n) }
            Call { dst, ret, callee, args, .. } => {
                let args = args.into_iter().map(|(t, o)| { let o = self.lo(&t, o); (t, o) }).collect();
                let (callee, id) = match callee {
                    Callee::Direct(n) => { let n = self.m.aliases.get(&n).cloned().unwrap_or(n); let id = self.fn_id(&n); (Callee::Direct(n), id) }
                    Callee::Indirect(o) => (Callee::Indirect(self.lo(&p, o)), u32::MAX),
                    Callee::Asm(a, c) => (Callee::Asm(a, c), u32::MAX),
                };
                Call { dst, ret, callee, args, fnidx: std::cell::Cell::new(id) }
            }
            Br(l) => Br(l),
            CondBr(c, a, b) => { let c = self.lo(&Ty::Int(1), c); CondBr(c, a, b) }
            Switch(t, v, d, cs) => { let v = self.lo(&t, v); Switch(t, v, d, cs) }
            Ret(t, v) => { let v = v.map(|v| self.lo(&t, v)); Ret(t, v) }
            Unreachable => Unreachable,
            Nop => Nop,
            Unsupported(s) => Unsupported(s),
        }
    }

    // ---- terms ----
    pub fn term(&mut self, v: &Val, w: u32) -> T {
        match v {
            Val::C(x) => self.ar.konst(w, *x as u128),
            Val::T(t) => { debug_assert_eq!(self.ar.w(*t), w); *t }
            Val::Agg(_) => panic!("term of aggregate"),
        }
    }
    pub fn val(&self, t: T) -> Val {
        let n = self.ar.n(t);
        if n.op == Op::Const && n.w <= 64 { Val::C(n.k as u64) } else { Val::T(t) }
    }
    pub fn ev(&mut self, st: &State, t: T) -> u128 { self.ar.eval(t, &st.model) }

    /// Is pc /\ c satisfiable? Returns a model extending the current one.
    pub fn feasible(&mut self, st: &State, c: T) -> Option<Rc<Vec<u8>>> {
        let n = self.ar.not(c);
        if st.pc.contains(&n) { self.implied += 1; return None }
        let mut vs = self.ar.vars[c as usize];
        let mut used = vec![false; st.pc.len()];
        let mut q = vec![c];
        loop {
            let mut ch = false;
            for (i, p) in st.pc.iter().enumerate() {
                if !used[i] && self.ar.vars[*p as usize] & vs != 0 {
                    used[i] = true;
                    q.push(*p);
                    let nv = vs | self.ar.vars[*p as usize];
                    if nv != vs { vs = nv; ch = true }
                }
            }
            if !ch { break }
        }
        q.sort_unstable();
        q.dedup();
        match self.smt.check(&self.ar, &q) {
            Res::Sat(m) => {
                let mut v = (*st.model).clone();
                for (i, b) in m { if v.len() <= i as usize { v.resize(i as usize + 1, 0) } v[i as usize] = b }
                Some(Rc::new(v))
            }
            Res::Unsat => None,
        }
    }
    /// Does the path decide this condition?
    pub fn settled(&mut self, st: &State, c: T) -> bool {
        if let Some((t, _)) = st.hint { if t == c { return true } }
        let side = self.ev(st, c) == 1;
        let n = self.ar.not(c);
        self.feasible(st, if side { n } else { c }).is_none()
    }
    pub fn add_pc(&mut self, st: &mut State, c: T) {
        // split conjunctions so that slices stay independent
        let n = *self.ar.n(c);
        if n.op == Op::And && n.w == 1 { self.add_pc(st, n.a); self.add_pc(st, n.b); return }
        if c != 1 && !st.pc.contains(&c) { st.pc.push(c) }
    }
    /// Decide a 1-bit term; forks when both values are feasible. The forked state resumes at the same
    /// instruction (`st` must be unmodified by the current instruction) with the opposite constraint.
    pub fn decide(&mut self, st: &mut State, c: T) -> bool {
        if c == 0 { return false }
        if c == 1 { return true }
        if let Some((t, v)) = st.hint.take() { if t == c { return v } }
        let side = self.ev(st, c) == 1;
        let (here, there) = if side { let n = self.ar.not(c); (c, n) } else { (self.ar.not(c), c) };
        if let Some(m) = self.feasible(st, there) {
            let mut o = st.clone();
            self.add_pc(&mut o, there);
            o.model = m;
            o.hint = Some((c, !side));
            self.forks += 1;
            self.pending.push(o);
            self.add_pc(st, here);
        } else {
            // `here` is implied by the path condition; recording it makes later checks syntactic
            if st.pc.len() < 64 { self.add_pc(st, here); }
        }
        side
    }
    /// Force a value to be concrete, forking over the other feasible values.
    pub fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> Result<u64, End> {
        match v {
            Val::C(x) => Ok(*x),
            Val::T(t) => {
                let t = *t;
                if let Some(k) = self.ar.as_const(t) { return Ok(k as u64) }
                let x = self.ev(st, t);
                let k = self.ar.konst(w, x);
                let e = self.ar.bin(Op::Eq, t, k);
                let _ = self.decide(st, e);
                self.conc_forks += 1;
                Ok(x as u64)
            }
            _ => panic!(),
        }
    }

    // ---- memory ----
    pub fn obj<'a>(&mut self, st: &'a mut State, id: u32) -> Option<&'a Rc<Obj>> {
        if st.mem.get(id).is_none() && id < HEAP0 && !self.load_global(st, id) { return None }
        st.mem.get(id)
    }
    pub fn check_range(&mut self, st: &mut State, a: u64, n: u64, write: bool) -> Result<(u32, usize), End> {
        if n == 0 { return Ok((0, 0)) }
        let (id, off) = split(a);
        match self.obj(st, id) {
            Some(o) => {
                if off > o.data.len() as u64 || n > o.data.len() as u64 - off {
                    return Err(End::Bad("memory".into(), format!("out-of-bounds access of {} bytes at offset {} of object of size {}", n, off as i64, o.data.len())));
                }
                if write && o.ro { return Err(End::Bad("memory".into(), "write to constant".into())) }
                Ok((id, off as usize))
            }
            None => Err(End::Bad("memory".into(), format!("access of {} bytes at invalid address {:#x}", n, a))),
        }
    }
    fn byte_term(&mut self, o: &Obj, i: usize) -> T {
        match &o.sym { Some(s) if s[i] != 0 => s[i], _ => self.ar.konst(8, o.data[i] as u128) }
    }
    fn load_bytes(&mut self, o: &Obj, off: usize, n: usize, w: u32) -> Val {
        let conc = match &o.sym { None => true, Some(s) => s[off..off + n].iter().all(|x| *x == 0) };
        if conc {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Val::C(u64::from_le_bytes(b) & mask(w) as u64);
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return self.mkc(w, u128::from_le_bytes(b));
        }
        let mut t = self.byte_term(o, off + n - 1);
        for i in (0..n - 1).rev() { let x = self.byte_term(o, off + i); t = self.ar.concat(t, x); }
        if (n as u32) * 8 > w { t = self.ar.extract(t, w - 1, 0) }
        self.val(t)
    }
    pub fn load_at(&mut self, st: &mut State, ty: &Ty, a: u64) -> Result<Val, End> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = ty.width();
                let n = (w as usize + 7) / 8;
                let (id, off) = self.check_range(st, a, n as u64, false)?;
                let o = st.mem.get(id).unwrap().clone();
                Ok(self.load_bytes(&o, off, n, w))
            }
            Ty::Vec(n, e) => {
                if e.width() < 8 {
                    // Packed bits.
                    let k = n * e.width();
                    if k % 8 != 0 || k > 128 { return Err(End::Fatal("load of sub-byte vector".into())) }
                    let v = self.load_at(st, &Ty::Int(k), a)?;
                    return self.bitcast(&Ty::Int(k), ty, v);
                }
                let mut v = vec![];
                for i in 0..*n as u64 { v.push(self.load_at(st, e, a + i * e.size())?) }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Arr(n, e) => {
                let mut v = vec![];
                for i in 0..*n { v.push(self.load_at(st, e, a + i * e.size())?) }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Struct(ts, _) => {
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() { v.push(self.load_at(st, t, a + ty.field_offset(i))?) }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Void => unreachable!(),
        }
    }
    pub fn store_at(&mut self, st: &mut State, ty: &Ty, v: &Val, a: u64) -> Result<(), End> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = ty.width();
                let n = (w as usize + 7) / 8;
                let (id, off) = self.check_range(st, a, n as u64, true)?;
                match v {
                    Val::C(x) => {
                        let o = Rc::make_mut(st.mem.slot(id).as_mut().unwrap());
                        if n <= 8 { o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]) } else { o.data[off..off + 8].copy_from_slice(&x.to_le_bytes()); for b in &mut o.data[off + 8..off + n] { *b = 0 } }
                        if let Some(s) = &mut o.sym { for x in &mut s[off..off + n] { *x = 0 } }
                    }
                    Val::T(t) => {
                        let t = if w % 8 != 0 { self.ar.zext(*t, n as u32 * 8) } else { *t };
                        let mut bs = Vec::with_capacity(n);
                        for i in 0..n as u32 { bs.push(self.ar.extract(t, i * 8 + 7, i * 8)) }
                        let o = Rc::make_mut(st.mem.slot(id).as_mut().unwrap());
                        for (i, b) in bs.into_iter().enumerate() { self.put_byte(o, off + i, b) }
                    }
                    Val::Agg(_) => panic!("store agg as scalar"),
                }
                Ok(())
            }
            Ty::Vec(n, e) if e.width() < 8 => {
                let k = n * e.width();
                if k % 8 != 0 || k > 128 { return Err(End::Fatal("store of sub-byte vector".into())) }
                let v = self.bitcast(ty, &Ty::Int(k), v.clone())?;
                self.store_at(st, &Ty::Int(k), &v, a)
            }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let vs = match v { Val::Agg(v) => v.clone(), _ => panic!("store agg") };
                for (i, x) in vs.iter().enumerate() {
                    let t = match ty { Ty::Vec(_, e) | Ty::Arr(_, e) => (**e).clone(), Ty::Struct(ts, _) => ts[i].clone(), _ => unreachable!() };
                    self.store_at(st, &t, x, a + ty.field_offset(i))?;
                }
                Ok(())
            }
            Ty::Void => unreachable!(),
        }
    }
    pub fn put_byte(&self, o: &mut Obj, i: usize, b: T) {
        if let Some(k) = self.ar.as_const(b) {
            o.data[i] = k as u8;
            if let Some(s) = &mut o.sym { s[i] = 0 }
        } else {
            let n = o.data.len();
            o.sym.get_or_insert_with(|| vec![0; n])[i] = b;
        }
    }
    pub fn read_byte(&mut self, st: &mut State, a: u64) -> Result<Val, End> { self.load_at(st, &Ty::Int(8), a) }

    /// Load through a symbolic address.
    fn load_sym(&mut self, st: &mut State, ty: &Ty, t: T) -> Result<Val, End> {
        let w = match ty { Ty::Int(w) => *w, Ty::Ptr => 64, _ => { let x = self.concretize(st, &Val::T(t), 64)?; return self.load_at(st, ty, x) } };
        let n = (w as u64 + 7) / 8;
        // small ite trees of constant addresses
        let x = self.ev(st, t) as u64;
        let (id, _) = split(x);
        if self.obj(st, id).is_none() { let x = self.concretize(st, &Val::T(t), 64)?; return self.load_at(st, ty, x) }
        let o = st.mem.get(id).unwrap().clone();
        let size = o.data.len() as u64;
        if size < n { let x = self.concretize(st, &Val::T(t), 64)?; return self.load_at(st, ty, x) }
        let base = addr_of(id);
        let bt = self.ar.konst(64, base as u128);
        let off = self.ar.bin(Op::Sub, t, bt);
        let lim = self.ar.konst(64, (size - n) as u128);
        let inb = self.ar.bin(Op::Ule, off, lim);
        if !self.decide(st, inb) { let x = self.concretize(st, &Val::T(t), 64)?; return self.load_at(st, ty, x) }
        let stride = 1u64 << self.ar.tz(off).min(3);
        let stride = stride.min(n.next_power_of_two());
        let cnt = (size - n) / stride + 1;
        let ptr_like = matches!(ty, Ty::Ptr);
        if cnt > 40000 || ptr_like && cnt > 64 { let x = self.concretize(st, &Val::T(t), 64)?; return self.load_at(st, ty, x) }
        // balanced tree on index bits
        let bits = 64 - (cnt - 1).leading_zeros();
        let sh = stride.trailing_zeros();
        let mut leaf: Vec<T> = Vec::with_capacity(cnt as usize);
        for i in 0..cnt { let v = self.load_bytes(&o, (i * stride) as usize, n as usize, w); leaf.push(self.term(&v, w)); }
        let mut cur = leaf;
        for b in 0..bits {
            let bit = self.ar.extract(off, b + sh, b + sh);
            let mut nx = Vec::with_capacity(cur.len() / 2 + 1);
            let mut i = 0;
            while i < cur.len() {
                let lo = cur[i];
                let hi = if i + 1 < cur.len() { cur[i + 1] } else { lo };
                nx.push(self.ar.ite(bit, hi, lo));
                i += 2;
            }
            cur = nx;
        }
        Ok(self.val(cur[0]))
    }

    pub fn op(&self, st: &State, o: &O) -> Val { match o { O::R(r) => st.cur.regs[*r as usize].clone(), O::C(v) => v.clone() } }
    pub fn opc(&mut self, st: &mut State, o: &O, w: u32) -> Result<u64, End> {
        match o {
            O::C(Val::C(x)) => Ok(*x),
            O::R(r) => {
                if let Val::C(x) = st.cur.regs[*r as usize] { return Ok(x) }
                let v = st.cur.regs[*r as usize].clone();
                let x = self.concretize(st, &v, w)?;
                st.cur.regs[*r as usize] = Val::C(x);
                Ok(x)
            }
            O::C(v) => { let v = v.clone(); self.concretize(st, &v, w) }
        }
    }

    pub fn bin(&mut self, o: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        let top = match o { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor };
        if w <= 64 {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let (x, y) = (*x, *y);
                let m = mask(w) as u64;
                return Val::C(match o {
                    BinOp::Add => x.wrapping_add(y) & m,
                    BinOp::Sub => x.wrapping_sub(y) & m,
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    _ => fold(top, w, x as u128, y as u128) as u64,
                });
            }
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let r = self.ar.bin(top, x, y);
        self.val(r)
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if w <= 64 {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let (x, y) = (*x, *y);
                let s = 64 - w;
                let (sx, sy) = (((x << s) as i64) >> s, ((y << s) as i64) >> s);
                return Val::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy } as u64);
            }
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let r = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => { let e = self.ar.bin(Op::Eq, x, y); self.ar.not(e) }
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.val(r)
    }
    fn cast(&mut self, o: CastOp, from: &Ty, to: &Ty, v: Val) -> Result<Val, End> {
        match o {
            CastOp::Freeze => Ok(v),
            CastOp::PtrToInt | CastOp::IntToPtr => {
                let (fw, tw) = (from.width(), to.width());
                if fw == tw { return Ok(v) }
                let t = self.term(&v, fw);
                let r = if tw < fw { self.ar.extract(t, tw - 1, 0) } else { self.ar.zext(t, tw) };
                Ok(self.val(r))
            }
            CastOp::Bitcast => self.bitcast(from, to, v),
            _ => {
                if let (Ty::Vec(n, fe), Ty::Vec(_, te)) = (from, to) {
                    let vs = match v { Val::Agg(a) => a, _ => panic!() };
                    let mut r = vec![];
                    for i in 0..*n as usize { r.push(self.cast(o, fe, te, vs[i].clone())?) }
                    return Ok(Val::Agg(Rc::new(r)));
                }
                let (fw, tw) = (from.width(), to.width());
                if let Val::C(x) = v {
                    if tw <= 64 {
                        return Ok(Val::C(match o {
                            CastOp::Trunc => x & mask(tw) as u64,
                            CastOp::ZExt => x,
                            _ => { let s = 64 - fw; ((((x << s) as i64) >> s) as u64) & mask(tw) as u64 }
                        }));
                    }
                }
                let t = self.term(&v, fw);
                let r = match o { CastOp::Trunc => self.ar.extract(t, tw - 1, 0), CastOp::ZExt => self.ar.zext(t, tw), _ => self.ar.sext(t, tw) };
                Ok(self.val(r))
            }
        }
    }
    fn bitcast(&mut self, from: &Ty, to: &Ty, v: Val) -> Result<Val, End> {
        // flatten to one wide term (<=128 bits)
        let bits = |t: &Ty| match t { Ty::Vec(n, e) => n * e.width(), t => t.width() };
        let tot = bits(from);
        if tot != bits(to) || tot > 128 { return Err(End::Fatal(format!("bitcast {:?} -> {:?}", from, to))) }
        let t = match (from, &v) {
            (Ty::Vec(n, e), Val::Agg(a)) => {
                let w = e.width();
                let mut t = self.term(&a[*n as usize - 1], w);
                for i in (0..*n as usize - 1).rev() { let x = self.term(&a[i], w); t = self.ar.concat(t, x) }
                t
            }
            _ => self.term(&v, tot),
        };
        Ok(match to {
            Ty::Vec(n, e) => {
                let w = e.width();
                let mut r = vec![];
                for i in 0..*n { let x = self.ar.extract(t, i * w + w - 1, i * w); r.push(self.val(x)) }
                Val::Agg(Rc::new(r))
            }
            _ => self.val(t),
        })
    }
    pub fn ite_val(&mut self, ty: &Ty, c: T, a: &Val, b: &Val) -> Val {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => { let w = ty.width(); let (x, y) = (self.term(a, w), self.term(b, w)); let r = self.ar.ite(c, x, y); self.val(r) }
            _ => {
                let (va, vb) = match (a, b) { (Val::Agg(a), Val::Agg(b)) => (a.clone(), b.clone()), _ => panic!() };
                let mut r = vec![];
                for i in 0..va.len() {
                    let t = match ty { Ty::Vec(_, e) | Ty::Arr(_, e) => (**e).clone(), Ty::Struct(ts, _) => ts[i].clone(), _ => unreachable!() };
                    r.push(self.ite_val(&t, c, &va[i], &vb[i]));
                }
                Val::Agg(Rc::new(r))
            }
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.cur.f.clone();
        let b = &f.blocks[to as usize];
        let from = st.cur.block;
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, _, v) = &b.phis[0];
                let x = v.iter().find(|(l, _)| *l == from).map(|(_, o)| self.op(st, o)).expect("phi");
                st.cur.regs[*d as usize] = x;
            } else {
                let mut tmp: Vec<Val> = Vec::with_capacity(b.phis.len());
                for (_, _, v) in &b.phis { tmp.push(v.iter().find(|(l, _)| *l == from).map(|(_, o)| self.op(st, o)).expect("phi")) }
                for ((d, _, _), x) in b.phis.iter().zip(tmp) { st.cur.regs[*d as usize] = x }
            }
        }
        st.cur.prev = from;
        st.cur.block = to;
        st.cur.ip = 0;
    }

    pub fn enter(&mut self, st: &mut State, id: u32, args: Vec<Val>, ret_dst: u32) -> Flow {
        let f = match self.func(id) { Some(f) => f, None => return Flow::End(End::Fatal(format!("call to unmodelled function {}", self.fn_names[id as usize]))) };
        if st.stack.len() > 20000 { return Flow::End(End::Bad("stack".into(), "call depth above 20000 (stack overflow)".into())) }
        if let Some(p) = &mut self.prof { *p.entry(f.name.clone()).or_insert(0) += 1 }
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (p, v) in f.params.iter().zip(args) { regs[*p as usize] = v }
        let nf = Frame { f, regs, block: 0, ip: 0, prev: 0, stack_mark: st.mem.stack_next, ret_dst };
        st.cur.ip += 1; // resume after the call
        let old = std::mem::replace(&mut st.cur, nf);
        st.stack.push(Rc::new(old));
        Flow::Jumped
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> Flow {
        let mark = st.cur.stack_mark;
        st.mem.pop_stack(mark);
        let dst = st.cur.ret_dst;
        match st.stack.pop() {
            None => Flow::End(End::Done),
            Some(f) => {
                st.cur = Rc::try_unwrap(f).unwrap_or_else(|f| (*f).clone());
                if dst != u32::MAX { if let Some(v) = v { st.cur.regs[dst as usize] = v } }
                Flow::Jumped
            }
        }
    }

    fn step(&mut self, st: &mut State) -> Result<Flow, End> {
        let f = st.cur.f.clone();
        let b = &f.blocks[st.cur.block as usize];
        let ins = &b.ins[st.cur.ip as usize];
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.cur.regs[*$d as usize] = v; }} }
        match ins {
            Ins::Bin(o, t, d, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                if let Ty::Vec(n, e) = t {
                    let (x, y) = match (x, y) { (Val::Agg(x), Val::Agg(y)) => (x, y), _ => panic!() };
                    let w = e.width();
                    let v = (0..*n as usize).map(|i| self.bin(*o, w, &x[i], &y[i])).collect();
                    set!(d, Val::Agg(Rc::new(v)));
                } else { set!(d, self.bin(*o, t.width(), &x, &y)) }
            }
            Ins::Icmp(p, t, d, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                if let Ty::Vec(n, e) = t {
                    let (x, y) = match (x, y) { (Val::Agg(x), Val::Agg(y)) => (x, y), _ => panic!() };
                    let w = e.width();
                    let v = (0..*n as usize).map(|i| self.icmp(*p, w, &x[i], &y[i])).collect();
                    set!(d, Val::Agg(Rc::new(v)));
                } else { set!(d, self.icmp(*p, t.width(), &x, &y)) }
            }
            Ins::Cast(o, t, to, d, a) => { let v = self.op(st, a); set!(d, self.cast(*o, t, to, v)?) }
            Ins::Select(t, d, c, a, b, vec) => {
                if *vec {
                    let (c, x, y) = match (self.op(st, c), self.op(st, a), self.op(st, b)) { (Val::Agg(c), Val::Agg(x), Val::Agg(y)) => (c, x, y), _ => panic!() };
                    let e = if let Ty::Vec(_, e) = t { e.clone() } else { panic!() };
                    let mut r = vec![];
                    for i in 0..c.len() { let ct = self.term(&c[i], 1); r.push(self.ite_val(&e, ct, &x[i], &y[i])) }
                    set!(d, Val::Agg(Rc::new(r)));
                } else {
                    match self.op(st, c) {
                        Val::C(k) => { let v = if k & 1 == 1 { self.op(st, a) } else { self.op(st, b) }; set!(d, v) }
                        Val::T(ct) => {
                            // Forking keeps lengths and offsets simple; small values stay conditional terms unless the path settles them.
                            let fork = match t { Ty::Ptr => true, Ty::Int(w) => *w >= self.fork_w, _ => false };
                            if fork || self.settled(st, ct) {
                                let s = self.decide(st, ct);
                                let v = if s { self.op(st, a) } else { self.op(st, b) };
                                set!(d, v);
                            } else {
                                let (x, y) = (self.op(st, a), self.op(st, b));
                                set!(d, self.ite_val(t, ct, &x, &y))
                            }
                        }
                        _ => panic!(),
                    }
                }
            }
            Ins::Load(t, d, a) => {
                let v = match self.op(st, a) {
                    Val::C(x) => self.load_at(st, t, x)?,
                    Val::T(x) => self.load_sym(st, t, x)?,
                    _ => panic!(),
                };
                set!(d, v);
            }
            Ins::Store(t, v, a) => {
                let x = self.opc(st, a, 64)?;
                let v = self.op(st, v);
                self.store_at(st, t, &v, x)?;
            }
            Ins::Alloca(d, s, n) => { let n = self.opc(st, n, 64)?; let a = st.mem.alloc_stack(s * n); set!(d, Val::C(a)) }
            Ins::Gep(d, b, off, ix) => {
                let mut v = self.op(st, b);
                if *off != 0 { v = self.bin(BinOp::Add, 64, &v, &Val::C(*off as u64)) }
                for (o, w, s) in ix {
                    let i = self.op(st, o);
                    let i = if *w == 64 { i } else { self.cast(if *w < 64 { CastOp::SExt } else { CastOp::Trunc }, &Ty::Int(*w), &Ty::Int(64), i)? };
                    let i = if *s == 1 { i } else { self.bin(BinOp::Mul, 64, &i, &Val::C(*s as u64)) };
                    v = self.bin(BinOp::Add, 64, &v, &i);
                }
                set!(d, v);
            }
            Ins::ExtractValue(_, d, v, ix) => {
                let mut v = self.op(st, v);
                for i in ix { v = match &v { Val::Agg(a) => a[*i as usize].clone(), _ => panic!() } }
                set!(d, v);
            }
            Ins::InsertValue(_, d, v, _, e, ix) => {
                let v = self.op(st, v);
                let e = self.op(st, e);
                fn put(v: &Val, ix: &[u32], e: Val) -> Val {
                    if ix.is_empty() { return e }
                    match v { Val::Agg(a) => { let mut a = (**a).clone(); a[ix[0] as usize] = put(&a[ix[0] as usize], &ix[1..], e); Val::Agg(Rc::new(a)) } _ => panic!() }
                }
                set!(d, put(&v, ix, e));
            }
            Ins::ExtractElement(_, d, v, i) => { let i = self.opc(st, i, 64)?; let v = self.op(st, v); set!(d, match &v { Val::Agg(a) => a[i as usize].clone(), _ => panic!() }) }
            Ins::InsertElement(_, d, v, e, i) => {
                let i = self.opc(st, i, 64)?;
                let e = self.op(st, e);
                set!(d, match self.op(st, v) { Val::Agg(a) => { let mut a = (*a).clone(); a[i as usize] = e; Val::Agg(Rc::new(a)) } _ => panic!() });
            }
            Ins::Shuffle(t, d, a, b, m) => {
                let (x, y) = match (self.op(st, a), self.op(st, b)) { (Val::Agg(x), Val::Agg(y)) => (x, y), _ => panic!() };
                let e = if let Ty::Vec(_, e) = t { (**e).clone() } else { panic!() };
                let z = self.zero(&e);
                let r = m.iter().map(|k| if *k < 0 { z.clone() } else if (*k as usize) < x.len() { x[*k as usize].clone() } else { y[*k as usize - x.len()].clone() }).collect();
                set!(d, Val::Agg(Rc::new(r)));
            }
            Ins::AtomicRmw(o, t, d, a, v) => {
                let x = self.opc(st, a, 64)?;
                let old = self.load_at(st, t, x)?;
                let v = self.op(st, v);
                let w = t.width();
                let nv = match &**o {
                    "add" => self.bin(BinOp::Add, w, &old, &v),
                    "sub" => self.bin(BinOp::Sub, w, &old, &v),
                    "and" => self.bin(BinOp::And, w, &old, &v),
                    "or" => self.bin(BinOp::Or, w, &old, &v),
                    "xor" => self.bin(BinOp::Xor, w, &old, &v),
                    "xchg" => v,
                    s => return Err(End::Fatal(format!("atomicrmw {}", s))),
                };
                self.store_at(st, t, &nv, x)?;
                set!(d, old);
            }
            Ins::CmpXchg(t, d, a, e, n) => {
                let x = self.opc(st, a, 64)?;
                let old = self.load_at(st, t, x)?;
                let e = self.op(st, e);
                let c = self.icmp(Pred::Eq, t.width(), &old, &e);
                let ok = match c { Val::C(k) => k == 1, Val::T(c) => self.decide(st, c), _ => panic!() };
                if ok { let n = self.op(st, n); self.store_at(st, t, &n, x)?; }
                set!(d, Val::Agg(Rc::new(vec![old, Val::C(ok as u64)])));
            }
            Ins::Call { dst, ret, callee, args, fnidx } => {
                let dst = dst.unwrap_or(u32::MAX);
                let id = match callee {
                    Callee::Direct(_) => fnidx.get(),
                    Callee::Indirect(o) => {
                        let a = self.opc(st, o, 64)?;
                        if a < FN_BASE || (a - FN_BASE) / 16 >= self.fn_names.len() as u64 { return Err(End::Bad("memory".into(), format!("call through invalid pointer {:#x}", a))) }
                        ((a - FN_BASE) / 16) as u32
                    }
                    Callee::Asm(a, c) => {
                        let v = if matches!(ret, Ty::Void) { None }
                            else if a.is_empty() { Some(args.iter().next().map(|(_, o)| self.op(st, o)).unwrap_or(Val::C(0))) }
                            else if a.contains("cpuid") || a.contains("xgetbv") { Some(self.zero(ret)) }
                            else { return Err(End::Fatal(format!("inline asm {:?} {:?}", a, c))) };
                        if let (true, Some(v)) = (dst != u32::MAX, v) { st.cur.regs[dst as usize] = v }
                        st.cur.ip += 1;
                        return Ok(Flow::Jumped);
                    }
                };
                if let Some(x) = self.fn_ext[id as usize] {
                    let r = crate::ext::call(self, st, x, id, ret, args, dst)?;
                    match r {
                        Flow::Next => { st.cur.ip += 1; return Ok(Flow::Jumped) }
                        f => return Ok(f),
                    }
                }
                let vals = args.iter().map(|(_, o)| self.op(st, o)).collect();
                return Ok(self.enter(st, id, vals, dst));
            }
            Ins::Br(l) => { self.jump(st, *l); return Ok(Flow::Jumped) }
            Ins::CondBr(c, x, y) => {
                let k = match self.op(st, c) { Val::C(k) => k & 1 == 1, Val::T(t) => self.decide(st, t), _ => panic!() };
                if let (O::R(r), true) = (c, true) { st.cur.regs[*r as usize] = Val::C(k as u64) }
                self.jump(st, if k { *x } else { *y });
                return Ok(Flow::Jumped);
            }
            Ins::Switch(t, v, d, cs) => {
                let w = t.width();
                match self.op(st, v) {
                    Val::C(x) => { let l = cs.iter().find(|(k, _)| *k as u64 == x).map(|c| c.1).unwrap_or(*d); self.jump(st, l) }
                    Val::T(tv) => {
                        // take the target selected by the model, fork on the rest
                        let x = self.ev(st, tv);
                        let tgt = cs.iter().find(|(k, _)| *k == x).map(|c| c.1);
                        let cond = match tgt {
                            Some(l) if l != *d => {
                                let mut c = 0;
                                for (k, l2) in cs { if *l2 == l { let kk = self.ar.konst(w, *k); let e = self.ar.bin(Op::Eq, tv, kk); c = self.ar.bin(Op::Or, c, e) } }
                                c
                            }
                            _ => {
                                let mut c = 1;
                                for (k, l2) in cs { if *l2 != *d { let kk = self.ar.konst(w, *k); let e = self.ar.bin(Op::Eq, tv, kk); let n = self.ar.not(e); c = self.ar.bin(Op::And, c, n) } }
                                c
                            }
                        };
                        let k = self.decide(st, cond);
                        debug_assert!(k);
                        let _ = k;
                        self.jump(st, tgt.unwrap_or(*d));
                    }
                    _ => panic!(),
                }
                return Ok(Flow::Jumped);
            }
            Ins::Ret(_, v) => { let v = v.as_ref().map(|v| self.op(st, v)); return Ok(self.ret(st, v)) }
            Ins::Unreachable => return Err(End::Bad("unreachable".into(), format!("unreachable executed in {}", f.name))),
            Ins::Nop => {}
            Ins::Unsupported(s) => return Err(End::Fatal(format!("unsupported instruction {}", s))),
        }
        st.cur.ip += 1;
        Ok(Flow::Jumped)
    }

    pub fn start(&mut self, name: &str) -> Result<State, String> {
        let n: Rc<str> = Rc::from(name);
        if !self.m.funcs.contains_key(&n) { return Err(format!("no function {}", name)) }
        let id = self.fn_id(&n);
        let f = self.func(id).unwrap();
        let regs = vec![Val::C(0); f.nregs as usize];
        Ok(State { cur: Frame { f, regs, block: 0, ip: 0, prev: 0, stack_mark: 0, ret_dst: u32::MAX }, stack: vec![], mem: Mem::default(), pc: vec![], model: Rc::new(vec![]), nvars: 0, steps: 0, trace: vec![], hint: None, files: Default::default(), fds: Default::default(), refuse: false })
    }
    pub fn bytes_of(&self, st: &State) -> Vec<u8> {
        let mut b = (*st.model).clone();
        b.resize(st.nvars as usize, 0);
        b
    }
    /// Run one state to its end.
    pub fn run(&mut self, mut st: State, mut poll: impl FnMut(&mut Ex) -> bool) -> Result<(), Violation> {
        self.ar.new_epoch();
        let mut n = 0u64;
        let end = loop {
            n += 1;
            if n & 0xfffff == 0 && poll(self) { return Ok(()) }
            st.steps += 1;
            if st.steps > self.max_steps { break End::Bad("nontermination".into(), format!("path exceeded {} steps", self.max_steps)) }
            match self.step(&mut st) {
                Ok(Flow::End(e)) => break e,
                Ok(_) => {}
                Err(e) => break e,
            }
        };
        self.steps += n;
        let end = match end { End::Bad(kind, _) if st.refuse && kind == "panic" => End::Done, e => e };
        match end {
            End::Done => {
                self.paths += 1;
                if self.paths % self.wit_every == 0 {
                    let tr: Vec<u64> = st.trace.clone().iter().map(|v| match v { Val::C(x) => *x, Val::T(t) => self.ar.eval(*t, &st.model) as u64, _ => 0 }).collect();
                    let b = self.bytes_of(&st);
                    self.witnesses.push((b, tr));
                    if self.witnesses.len() >= 64 { let mut i = 0; self.witnesses.retain(|_| { i += 1; i % 2 == 0 }); self.wit_every *= 2 }
                }
                Ok(())
            }
            End::Killed => { self.killed += 1; Ok(()) }
            End::Bad(kind, msg) => {
                let mut stack: Vec<String> = vec![st.cur.f.name.to_string()];
                for f in st.stack.iter().rev().take(30) { stack.push(f.f.name.to_string()) }
                Err(Violation { kind, msg, bytes: self.bytes_of(&st), stack })
            }
            End::Fatal(m) => {
                let mut stack: Vec<String> = vec![st.cur.f.name.to_string()];
                for f in st.stack.iter().rev().take(30) { stack.push(f.f.name.to_string()) }
                Err(Violation { kind: "fatal".into(), msg: m, bytes: self.bytes_of(&st), stack })
            }
        }
    }
}
