//! Thin FFI to libz3 (QF_BV) plus a query cache keyed by the independent constraint slice.
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, u: *mut u64) -> bool;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, s: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
}

pub fn z3_version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Res { Sat(Vec<(u8, u8)>), Unsat }

pub struct Smt {
    ctx: P,
    solver: P,
    asts: HashMap<T, P, BuildH>,   // 1-bit terms are Bool
    lits: HashMap<T, P, BuildH>,
    vars: Vec<P>,
    cache: HashMap<Box<[T]>, Option<Box<[(u8, u8)]>>, BuildH>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub solver_ns: u64,
    pub max_ns: u64,
    pub dump: Option<std::fs::File>,
    pub dump_left: u64,
    mode: u32,
}

impl Smt {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            let l = CString::new("QF_BV").unwrap();
            let mode: u32 = std::env::var("SMODE").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let solver = if mode == 2 || mode == 3 { Z3_mk_simple_solver(ctx) } else { Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr())) };
            let mode = if mode == 3 { 0 } else { mode };
            Z3_solver_inc_ref(ctx, solver);
            Smt { ctx, solver, asts: HashMap::with_hasher(BuildH), lits: HashMap::with_hasher(BuildH), vars: vec![], cache: HashMap::with_hasher(BuildH),
                queries: 0, cache_hits: 0, sat: 0, unsat: 0, solver_ns: 0, max_ns: 0, dump: None, dump_left: 0, mode }
        }
    }
    fn var(&mut self, i: usize) -> P {
        while self.vars.len() <= i {
            unsafe {
                let s = CString::new(format!("b{}", self.vars.len())).unwrap();
                let v = Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, s.as_ptr()), Z3_mk_bv_sort(self.ctx, 8));
                Z3_inc_ref(self.ctx, v);
                self.vars.push(v);
            }
        }
        self.vars[i]
    }
    fn num(&self, w: u32, k: u128) -> P {
        unsafe {
            let s = CString::new(k.to_string()).unwrap();
            let r = Z3_mk_numeral(self.ctx, s.as_ptr(), Z3_mk_bv_sort(self.ctx, w));
            Z3_inc_ref(self.ctx, r);
            r
        }
    }
    /// AST; 1-bit terms are represented as Bool
    fn ast(&mut self, ar: &Arena, t: T) -> P {
        if let Some(p) = self.asts.get(&t) { return *p }
        let n = *ar.n(t);
        let w = n.w as u32;
        let c = self.ctx;
        unsafe {
            let r = match n.op {
                Op::Const => if w == 1 { if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(w, n.k) },
                Op::Var => self.var(n.k as usize),
                Op::Not => { let a = self.ast(ar, n.a); if w == 1 { Z3_mk_not(c, a) } else { Z3_mk_bvnot(c, a) } }
                Op::Ite => { let (x, a, b) = (self.ast(ar, n.a), self.ast(ar, n.b), self.ast(ar, n.c)); Z3_mk_ite(c, x, a, b) }
                Op::Concat => { let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b)); Z3_mk_concat(c, a, b) }
                Op::Extract => {
                    let a = self.bv(ar, n.a);
                    let e = Z3_mk_extract(c, n.b, n.c, a);
                    Z3_inc_ref(c, e);
                    if w == 1 { let one = self.num(1, 1); Z3_mk_eq(c, e, one) } else { e }
                }
                Op::ZExt => { let iw = ar.w(n.a); let a = self.bv(ar, n.a); Z3_mk_zero_ext(c, w - iw, a) }
                Op::SExt => { let iw = ar.w(n.a); let a = self.bv(ar, n.a); Z3_mk_sign_ext(c, w - iw, a) }
                op => {
                    let iw = ar.w(n.a);
                    let (a, b) = if iw == 1 && !matches!(op, Op::Eq | Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub) { (self.bv(ar, n.a), self.bv(ar, n.b)) } else { (self.ast(ar, n.a), self.ast(ar, n.b)) };
                    if iw == 1 {
                        match op {
                            Op::Eq => Z3_mk_eq(c, a, b),
                            Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                            Op::Xor | Op::Add | Op::Sub => Z3_mk_xor(c, a, b),
                            Op::Ult => Z3_mk_bvult(c, a, b),
                            Op::Ule => Z3_mk_bvule(c, a, b),
                            Op::Slt => Z3_mk_bvslt(c, a, b),
                            Op::Sle => Z3_mk_bvsle(c, a, b),
                            _ => panic!("1-bit op {:?}", op),
                        }
                    } else {
                        match op {
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::Eq => Z3_mk_eq(c, a, b),
                            Op::Ult => Z3_mk_bvult(c, a, b),
                            Op::Ule => Z3_mk_bvule(c, a, b),
                            Op::Slt => Z3_mk_bvslt(c, a, b),
                            Op::Sle => Z3_mk_bvsle(c, a, b),
                            _ => unreachable!(),
                        }
                    }
                }
            };
            assert!(!r.is_null() && Z3_get_error_code(c) == 0, "z3 error building {:?}", n);
            Z3_inc_ref(c, r);
            self.asts.insert(t, r);
            r
        }
    }
    /// bit-vector form even for 1-bit terms
    fn bv(&mut self, ar: &Arena, t: T) -> P {
        let a = self.ast(ar, t);
        if ar.w(t) != 1 { return a }
        unsafe { let (x, y) = (self.num(1, 1), self.num(1, 0)); let r = Z3_mk_ite(self.ctx, a, x, y); Z3_inc_ref(self.ctx, r); r }
    }
    fn lit(&mut self, ar: &Arena, t: T) -> P {
        if let Some(p) = self.lits.get(&t) { return *p }
        let a = self.ast(ar, t);
        unsafe {
            let s = CString::new(format!("l{}", t)).unwrap();
            let l = Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, s.as_ptr()), Z3_mk_bool_sort(self.ctx));
            Z3_inc_ref(self.ctx, l);
            let imp = Z3_mk_implies(self.ctx, l, a);
            Z3_solver_assert(self.ctx, self.solver, imp);
            self.lits.insert(t, l);
            l
        }
    }
    /// Satisfiability of a conjunction of 1-bit terms (must be sorted + deduped).
    pub fn check(&mut self, ar: &Arena, cs: &[T]) -> Res {
        if let Some(r) = self.cache.get(cs) {
            self.cache_hits += 1;
            return match r { Some(m) => Res::Sat(m.to_vec()), None => Res::Unsat };
        }
        let start = std::time::Instant::now();
        let vars = cs.iter().fold(0u128, |a, t| a | ar.vars[*t as usize]);
        let res = unsafe {
            let st;
            let assumption_mode = self.mode == 0;
            if assumption_mode {
                let ls: Vec<P> = cs.iter().map(|t| self.lit(ar, *t)).collect();
                st = Z3_solver_check_assumptions(self.ctx, self.solver, ls.len() as c_uint, ls.as_ptr());
            } else {
                Z3_solver_push(self.ctx, self.solver);
                for t in cs { let a = self.ast(ar, *t); Z3_solver_assert(self.ctx, self.solver, a); }
                st = Z3_solver_check(self.ctx, self.solver);
            }
            assert!(Z3_get_error_code(self.ctx) == 0, "z3 error in check");
            let r = match st {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for i in 0..128u8 {
                        if vars >> i & 1 == 1 {
                            let v = self.var(i as usize);
                            let mut o: P = std::ptr::null_mut();
                            assert!(Z3_model_eval(self.ctx, m, v, true, &mut o));
                            let mut u = 0u64;
                            Z3_inc_ref(self.ctx, o);
                            assert!(Z3_get_numeral_uint64(self.ctx, o, &mut u));
                            out.push((i, u as u8));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Some(out)
                }
                -1 => None,
                _ => panic!("INCONCLUSIVE: solver returned unknown"),
            };
            if !assumption_mode { Z3_solver_pop(self.ctx, self.solver, 1); }
            r
        };
        let ns = start.elapsed().as_nanos() as u64;
        self.solver_ns += ns;
        self.max_ns = self.max_ns.max(ns);
        self.queries += 1;
        if self.dump.is_some() && self.dump_left > 0 && (self.queries % 17 == 1) {
            self.dump_left -= 1;
            let s = self.smtlib(ar, cs, vars);
            use std::io::Write;
            let f = self.dump.as_mut().unwrap();
            let _ = writeln!(f, ";;;QUERY {}\n{}", if res.is_some() { "sat" } else { "unsat" }, s);
        }
        match res {
            Some(m) => { self.sat += 1; self.cache.insert(cs.into(), Some(m.clone().into())); Res::Sat(m) }
            None => { self.unsat += 1; self.cache.insert(cs.into(), None); Res::Unsat }
        }
    }
    fn smtlib(&mut self, ar: &Arena, cs: &[T], vars: u128) -> String {
        let mut s = String::from("(set-logic QF_BV)\n");
        for i in 0..128 { if vars >> i & 1 == 1 { s += &format!("(declare-const b{} (_ BitVec 8))\n", i) } }
        for t in cs {
            let a = self.ast(ar, *t);
            let c = unsafe { std::ffi::CStr::from_ptr(Z3_ast_to_string(self.ctx, a)) };
            s += &format!("(assert {})\n", c.to_string_lossy());
        }
        s += "(check-sat)\n";
        s
    }
    #[allow(dead_code)]
    fn unused(&self) { unsafe { let _ = Z3_get_numeral_string(self.ctx, std::ptr::null_mut()); } }
}
