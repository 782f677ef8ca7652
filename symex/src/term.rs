//! Hash-consed bit-vector terms (1..=128 bits) over 8-bit symbolic input bytes.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const, Var, Not, And, Or, Xor, Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Concat, Extract, ZExt, SExt, Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<u128>,
    /// number of const-leaf ite leaves (0 = not a const-leaf ite tree; 1 = const)
    pub leaves: Vec<u8>,
    map: HashMap<Node, T, BuildH>,
    memo_epoch: Vec<u32>,
    memo_val: Vec<u128>,
    epoch: u32,
}

#[derive(Default, Clone, Copy)]
pub struct BuildH;
pub struct H(u64);
impl std::hash::BuildHasher for BuildH {
    type Hasher = H;
    fn build_hasher(&self) -> H { H(0) }
}
impl std::hash::Hasher for H {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x9E3779B97F4A7C15) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { let s = 128 - w; ((v << s) as i128) >> s }

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let sh = |b: u128| -> Option<u32> { if b >= w as u128 { None } else { Some(b as u32) } };
    let r = match op {
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => if b == 0 { if sx(a, w) < 0 { 1 } else { m } } else { sx(a, w).wrapping_div(sx(b, w)) as u128 },
        Op::SRem => if b == 0 { a } else { sx(a, w).wrapping_rem(sx(b, w)) as u128 },
        Op::Shl => match sh(b) { Some(s) => a << s, None => 0 },
        Op::LShr => match sh(b) { Some(s) => a >> s, None => 0 },
        Op::AShr => match sh(b) { Some(s) => (sx(a, w) >> s) as u128, None => if sx(a, w) < 0 { m } else { 0 } },
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => unreachable!(),
    };
    if is_cmp(op) { r } else { r & m }
}
pub fn is_cmp(op: Op) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) }

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], vars: vec![], leaves: vec![], map: HashMap::with_hasher(BuildH), memo_epoch: vec![], memo_val: vec![], epoch: 1 };
        a.konst(1, 0); // T 0 = false
        a.konst(1, 1); // T 1 = true
        a
    }
    pub fn n(&self, t: T) -> &Node { &self.nodes[t as usize] }
    pub fn w(&self, t: T) -> u32 { self.nodes[t as usize].w as u32 }
    pub fn as_const(&self, t: T) -> Option<u128> {
        let n = self.n(t);
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    fn mk(&mut self, node: Node) -> T {
        if let Some(t) = self.map.get(&node) { return *t }
        let t = self.nodes.len() as T;
        let v = match node.op {
            Op::Const => 0,
            Op::Var => 1u128 << node.k,
            Op::Ite => self.vars[node.a as usize] | self.vars[node.b as usize] | self.vars[node.c as usize],
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => self.vars[node.a as usize],
            _ => self.vars[node.a as usize] | self.vars[node.b as usize],
        };
        let l = match node.op {
            Op::Const => 1,
            Op::Ite => {
                let (x, y) = (self.leaves[node.b as usize], self.leaves[node.c as usize]);
                if x == 0 || y == 0 { 0 } else { let s = x as u32 + y as u32; if s > 16 { 0 } else { s as u8 } }
            }
            _ => 0,
        };
        self.nodes.push(node);
        self.vars.push(v);
        self.leaves.push(l);
        self.memo_epoch.push(0);
        self.memo_val.push(0);
        self.map.insert(node, t);
        t
    }
    pub fn konst(&mut self, w: u32, k: u128) -> T {
        self.mk(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, i: u32) -> T {
        assert!(i < 128, "more than 128 symbolic bytes");
        self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    fn n2(&mut self, op: Op, w: u32, a: T, b: T) -> T {
        self.mk(Node { op, w: w as u16, a, b, c: 0, k: 0 })
    }
    pub fn bool_(&mut self, b: bool) -> T { b as T }

    /// map every leaf of a const-leaf ite tree
    fn map_leaves(&mut self, t: T, f: &mut dyn FnMut(&mut Arena, u128) -> T) -> T {
        let n = *self.n(t);
        if n.op == Op::Const { return f(self, n.k) }
        let x = self.map_leaves(n.b, f);
        let y = self.map_leaves(n.c, f);
        self.ite(n.a, x, y)
    }
    fn is_tree(&self, t: T) -> bool { self.leaves[t as usize] > 1 }

    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let rw = if is_cmp(op) { 1 } else { w };
            return self.konst(rw, fold(op, w, x, y));
        }
        let m = mask(w);
        // canonical order for commutative ops: const on the right
        let comm = matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul | Op::Eq);
        let (a, b, ca, cb) = if comm && (ca.is_some() || (cb.is_none() && a > b)) { (b, a, cb, ca) } else { (a, b, ca, cb) };
        if let Some(k) = cb {
            if self.is_tree(a) {
                return self.map_leaves(a, &mut |s, x| {
                    let rw = if is_cmp(op) { 1 } else { w };
                    s.konst(rw, fold(op, w, x, k))
                });
            }
        }
        if let Some(k) = ca {
            if self.is_tree(b) {
                return self.map_leaves(b, &mut |s, x| {
                    let rw = if is_cmp(op) { 1 } else { w };
                    s.konst(rw, fold(op, w, k, x))
                });
            }
        }
        let na = *self.n(a);
        let nb = *self.n(b);
        match op {
            Op::And => {
                if a == b { return a }
                if let Some(k) = cb {
                    if k == 0 { return b }
                    if k == m { return a }
                    if na.op == Op::And { if let Some(k2) = self.as_const(na.b) { let c = self.konst(w, k & k2); return self.bin(Op::And, na.a, c) } }
                    // low mask -> zext(extract)
                    if k & (k + 1) == 0 {
                        let lw = 128 - k.leading_zeros();
                        let lo = self.extract(a, lw - 1, 0);
                        return self.zext(lo, w);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let c = self.konst(iw, k);
                        let r = self.bin(Op::And, na.a, c);
                        return self.zext(r, w);
                    }
                }
                if w == 1 {
                    if self.not_of(a, b) { return 0 }
                    // absorption: a & (a & x)
                    if nb.op == Op::And && (nb.a == a || nb.b == a) { return b }
                    if na.op == Op::And && (na.a == b || na.b == b) { return a }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) { return a }
                    if na.op == Op::Or && (na.a == b || na.b == b) { return b }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let r = self.bin(Op::And, na.a, nb.a);
                    return self.zext(r, w);
                }
            }
            Op::Or => {
                if a == b { return a }
                if let Some(k) = cb {
                    if k == 0 { return a }
                    if k == m { return b }
                    if na.op == Op::Or { if let Some(k2) = self.as_const(na.b) { let c = self.konst(w, k | k2); return self.bin(Op::Or, na.a, c) } }
                }
                if w == 1 {
                    if self.not_of(a, b) { return 1 }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b }
                    if na.op == Op::Or && (na.a == b || na.b == b) { return a }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) { return a }
                    if na.op == Op::And && (na.a == b || na.b == b) { return b }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let r = self.bin(Op::Or, na.a, nb.a);
                    return self.zext(r, w);
                }
                // (x << k) | zext(y) with disjoint bits -> concat
                if let Some(r) = self.or_concat(a, b, w).or_else(|| self.or_concat(b, a, w)) { return r }
            }
            Op::Xor => {
                if a == b { return self.konst(w, 0) }
                if let Some(k) = cb {
                    if k == 0 { return a }
                    if k == m { return self.not(a) }
                }
            }
            Op::Add => {
                if let Some(k) = cb {
                    if k == 0 { return a }
                    if na.op == Op::Add { if let Some(k2) = self.as_const(na.b) { let c = self.konst(w, k.wrapping_add(k2)); return self.bin(Op::Add, na.a, c) } }
                }
                if w == 1 { return self.bin(Op::Xor, a, b) }
                // lift constants outward
                if cb.is_none() {
                    if na.op == Op::Add && self.as_const(na.b).is_some() { let r = self.bin(Op::Add, na.a, b); return self.bin(Op::Add, r, na.b) }
                    if nb.op == Op::Add && self.as_const(nb.b).is_some() { let r = self.bin(Op::Add, a, nb.a); return self.bin(Op::Add, r, nb.b) }
                }
            }
            Op::Sub => {
                if a == b { return self.konst(w, 0) }
                if let Some(k) = cb { let c = self.konst(w, k.wrapping_neg()); return self.bin(Op::Add, a, c) }
                // (x + k) - x
                if na.op == Op::Add && na.a == b { return na.b }
                if na.op == Op::Add && na.b == b { return na.a }
                if na.op == Op::Add && self.as_const(na.b).is_some() { let r = self.bin(Op::Sub, na.a, b); return self.bin(Op::Add, r, na.b) }
                if nb.op == Op::Add { if let Some(k) = self.as_const(nb.b) { let r = self.bin(Op::Sub, a, nb.a); let c = self.konst(w, k.wrapping_neg()); return self.bin(Op::Add, r, c) } }
            }
            Op::Mul => if let Some(k) = cb {
                if k == 0 { return b }
                if k == 1 { return a }
                if k.is_power_of_two() { let c = self.konst(w, k.trailing_zeros() as u128); return self.bin(Op::Shl, a, c) }
            },
            Op::UDiv => if let Some(k) = cb { if k == 1 { return a } if k.is_power_of_two() { let c = self.konst(w, k.trailing_zeros() as u128); return self.bin(Op::LShr, a, c) } },
            Op::URem => if let Some(k) = cb { if k.is_power_of_two() { let c = self.konst(w, k - 1); return self.bin(Op::And, a, c) } },
            Op::Shl => if let Some(k) = cb {
                if k == 0 { return a }
                if k >= w as u128 { return self.konst(w, 0) }
                let lo = self.extract(a, w - 1 - k as u32, 0);
                let z = self.konst(k as u32, 0);
                return self.concat(lo, z);
            },
            Op::LShr => if let Some(k) = cb {
                if k == 0 { return a }
                if k >= w as u128 { return self.konst(w, 0) }
                let hi = self.extract(a, w - 1, k as u32);
                return self.zext(hi, w);
            },
            Op::AShr => if let Some(k) = cb {
                if k == 0 { return a }
                let k = k.min(w as u128 - 1);
                let hi = self.extract(a, w - 1, k as u32);
                return self.sext(hi, w);
            },
            Op::Eq => {
                if a == b { return 1 }
                if let Some(k) = cb {
                    if w == 1 { return if k == 1 { a } else { self.not(a) } }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) { return 0 }
                            let c = self.konst(iw, k);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let lo = k & mask(iw);
                            if (sx(lo, iw) as u128) & m != k { return 0 }
                            let c = self.konst(iw, lo);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::Add => if let Some(k2) = self.as_const(na.b) {
                            let c = self.konst(w, k.wrapping_sub(k2));
                            return self.bin(Op::Eq, na.a, c);
                        },
                        Op::Xor => if let Some(k2) = self.as_const(na.b) {
                            let c = self.konst(w, k ^ k2);
                            return self.bin(Op::Eq, na.a, c);
                        },
                        Op::Not => { let c = self.konst(w, !k); return self.bin(Op::Eq, na.a, c) }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let (kh, kl) = (self.konst(w - lw, k >> lw), self.konst(lw, k));
                            let x = self.bin(Op::Eq, na.a, kh);
                            if x == 0 { return 0 }
                            let y = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            // eq(ite(c,k1,y),k): split when one arm is const
                            if self.as_const(na.b).is_some() || self.as_const(na.c).is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a) }
                    if w == 1 { let x = self.bin(Op::Xor, a, b); return self.not(x) }
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.bin(Op::Eq, na.a, nb.a) }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, x, y);
                    }
                }
            }
            Op::Ult => {
                if a == b { return 0 }
                if let Some(k) = cb {
                    if k == 0 { return 0 }
                    if k == 1 { let z = self.konst(w, 0); return self.bin(Op::Eq, a, z) }
                    if k == m { let e = self.bin(Op::Eq, a, b); return self.not(e) }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k > mask(iw) { return 1 }
                        let c = self.konst(iw, k);
                        return self.bin(Op::Ult, na.a, c);
                    }
                    if self.ubound(a) < k { return 1 }
                }
                if let Some(k) = ca {
                    if k == m { return 0 }
                    if k == 0 { let e = self.bin(Op::Eq, b, a); return self.not(e) }
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        if k >= mask(iw) { return 0 }
                        let c = self.konst(iw, k);
                        return self.bin(Op::Ult, c, nb.a);
                    }
                    if self.ubound(b) <= k { return 0 }
                    let c = self.konst(w, k + 1);
                    let x = self.bin(Op::Ult, b, c);
                    return self.not(x);
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ult, na.a, nb.a) }
            }
            Op::Ule => {
                let x = self.bin(Op::Ult, b, a);
                return self.not(x);
            }
            Op::Slt => {
                if a == b { return 0 }
                // both provably non-negative -> unsigned
                let half = 1u128 << (w - 1);
                if self.ubound(a) < half && self.ubound(b) < half { return self.bin(Op::Ult, a, b) }
                if cb == Some(0) && w > 1 { let s = self.extract(a, w - 1, w - 1); return s }
                if ca == Some(m) && w > 1 { let s = self.extract(b, w - 1, w - 1); return self.not(s) }
            }
            Op::Sle => {
                let x = self.bin(Op::Slt, b, a);
                return self.not(x);
            }
            _ => {}
        }
        let rw = if is_cmp(op) { 1 } else { w };
        self.n2(op, rw, a, b)
    }
    fn or_concat(&mut self, hi: T, lo: T, w: u32) -> Option<T> {
        // hi = concat(x, 0_k), lo = zext(y) with |y| <= k
        let nh = *self.n(hi);
        let nl = *self.n(lo);
        if nh.op == Op::Concat && self.as_const(nh.b) == Some(0) {
            let k = self.w(nh.b);
            let (y, ub_ok) = if nl.op == Op::ZExt { (nl.a, self.w(nl.a) <= k) } else { (lo, false) };
            if ub_ok {
                let y = self.zext(y, k);
                return Some(self.concat(nh.a, y));
            }
            if nl.op == Op::Const && nl.k <= mask(k) && nl.k != 0 {
                let y = self.konst(k, nl.k);
                return Some(self.concat(nh.a, y));
            }
        }
        // hi = zext(concat(x,0_k))
        if nh.op == Op::ZExt {
            let iw = self.w(nh.a);
            let ni = *self.n(nh.a);
            if ni.op == Op::Concat && self.as_const(ni.b) == Some(0) && nl.op == Op::ZExt && self.w(nl.a) <= self.w(ni.b) {
                let k = self.w(ni.b);
                let y = self.zext(nl.a, k);
                let c = self.concat(ni.a, y);
                debug_assert_eq!(self.w(c), iw);
                return Some(self.zext(c, w));
            }
        }
        None
    }
    /// cheap syntactic unsigned upper bound
    pub fn ubound(&self, t: T) -> u128 {
        let n = self.n(t);
        let m = mask(n.w as u32);
        match n.op {
            Op::Const => n.k,
            Op::ZExt => self.ubound(n.a),
            Op::And => self.ubound(n.a).min(self.ubound(n.b)),
            Op::Ite => self.ubound(n.b).max(self.ubound(n.c)),
            Op::Concat => { let lw = self.w(n.b); (self.ubound(n.a) << lw) | self.ubound(n.b) }
            Op::Add => { let (x, y) = (self.ubound(n.a), self.ubound(n.b)); match x.checked_add(y) { Some(s) if s <= m => s, _ => m } }
            Op::Mul => { let (x, y) = (self.ubound(n.a), self.ubound(n.b)); match x.checked_mul(y) { Some(s) if s <= m => s, _ => m } }
            _ => m,
        }
    }
    fn not_of(&self, a: T, b: T) -> bool {
        let (na, nb) = (self.n(a), self.n(b));
        (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a)
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        let n = *self.n(a);
        match n.op {
            Op::Const => self.konst(w, !n.k),
            Op::Not => n.a,
            Op::Ite if self.is_tree(a) => self.map_leaves(a, &mut |s, x| s.konst(w, !x)),
            _ => self.mk(Node { op: Op::Not, w: w as u16, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        debug_assert_eq!(self.w(a), self.w(b));
        if c == 1 { return a }
        if c == 0 { return b }
        if a == b { return a }
        let nc = *self.n(c);
        if nc.op == Op::Not { return self.ite(nc.a, b, a) }
        let w = self.w(a);
        if w == 1 {
            match (a, b) {
                (1, 0) => return c,
                (0, 1) => return self.not(c),
                (1, _) => return self.bin(Op::Or, c, b),
                (0, _) => { let n = self.not(c); return self.bin(Op::And, n, b) }
                (_, 0) => return self.bin(Op::And, c, a),
                (_, 1) => { let n = self.not(c); return self.bin(Op::Or, n, a) }
                _ => {}
            }
        }
        let na = *self.n(a);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b) }
        let nb = *self.n(b);
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c) }
        // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a { let cd = self.bin(Op::Or, c, nb.a); return self.ite(cd, a, nb.c) }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let r = self.ite(c, na.a, nb.a);
            return self.zext(r, w);
        }
        self.mk(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b, k: 0 })
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        assert!(w <= 128);
        let nh = *self.n(hi);
        let nl = *self.n(lo);
        if nh.op == Op::Const && nl.op == Op::Const { return self.konst(w, (nh.k << wl) | nl.k) }
        if nh.op == Op::Const && nh.k == 0 { return self.zext(lo, w) }
        if nh.op == Op::ZExt { let inner = self.concat(nh.a, lo); return self.zext(inner, w) }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.c == nl.b + 1 {
            return self.extract(nh.a, nh.b, nl.c);
        }
        // hi = concat(x, extract(t,h,m)), lo = extract(t,m-1,l)
        if nh.op == Op::Concat && nl.op == Op::Extract {
            let nm = *self.n(nh.b);
            if nm.op == Op::Extract && nm.a == nl.a && nm.c == nl.b + 1 {
                let e = self.extract(nm.a, nm.b, nl.c);
                return self.concat(nh.a, e);
            }
        }
        // hi = extract of zext top etc handled by extract simplification
        if nh.op == Op::Extract && nh.c == wl && nh.a == lo && nl.op != Op::Extract { /* concat(extract(x,..,wl), x?) not equal width; ignore */ }
        self.n2(Op::Concat, w, hi, lo)
    }
    /// bits hi..=lo
    pub fn extract(&mut self, t: T, hi: u32, lo: u32) -> T {
        let w = self.w(t);
        debug_assert!(hi >= lo && hi < w);
        if lo == 0 && hi == w - 1 { return t }
        let nw = hi - lo + 1;
        let n = *self.n(t);
        match n.op {
            Op::Const => self.konst(nw, n.k >> lo),
            Op::Extract => self.extract(n.a, n.c + hi, n.c + lo),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl { self.extract(n.a, hi - wl, lo - wl) }
                else if hi < wl { self.extract(n.b, hi, lo) }
                else { let h = self.extract(n.a, hi - wl, 0); let l = self.extract(n.b, wl - 1, lo); self.concat(h, l) }
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { self.konst(nw, 0) }
                else if hi < iw { self.extract(n.a, hi, lo) }
                else { let l = self.extract(n.a, iw - 1, lo); self.zext(l, nw) }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw { self.extract(n.a, hi, lo) }
                else if lo == 0 { let x = n.a; self.sext(x, nw) }
                else { self.mk(Node { op: Op::Extract, w: nw as u16, a: t, b: hi, c: lo, k: 0 }) }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                self.bin(n.op, x, y)
            }
            Op::Not => { let x = self.extract(n.a, hi, lo); self.not(x) }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                self.bin(n.op, x, y)
            }
            Op::Ite if self.is_tree(t) => self.map_leaves(t, &mut |s, x| s.konst(nw, x >> lo)),
            Op::Ite => {
                let x = self.extract(n.b, hi, lo);
                let y = self.extract(n.c, hi, lo);
                self.ite(n.a, x, y)
            }
            _ => self.mk(Node { op: Op::Extract, w: nw as u16, a: t, b: hi, c: lo, k: 0 }),
        }
    }
    pub fn zext(&mut self, t: T, w: u32) -> T {
        let iw = self.w(t);
        if iw == w { return t }
        debug_assert!(w > iw);
        let n = *self.n(t);
        match n.op {
            Op::Const => self.konst(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.is_tree(t) => self.map_leaves(t, &mut |s, x| s.konst(w, x)),
            _ => self.mk(Node { op: Op::ZExt, w: w as u16, a: t, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, t: T, w: u32) -> T {
        let iw = self.w(t);
        if iw == w { return t }
        let n = *self.n(t);
        match n.op {
            Op::Const => self.konst(w, sx(n.k, iw) as u128),
            Op::SExt => self.sext(n.a, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.is_tree(t) => self.map_leaves(t, &mut |s, x| s.konst(w, sx(x, iw) as u128)),
            _ if iw == 1 => { let a = self.konst(w, u128::MAX); let b = self.konst(w, 0); self.ite(t, a, b) }
            _ => self.mk(Node { op: Op::SExt, w: w as u16, a: t, b: 0, c: 0, k: 0 }),
        }
    }
    /// known trailing zero bits (cheap)
    pub fn tz(&self, t: T) -> u32 {
        let n = self.n(t);
        match n.op {
            Op::Const => if n.k == 0 { n.w as u32 } else { n.k.trailing_zeros() },
            Op::Concat => { let l = self.tz(n.b); if l == self.w(n.b) { l + self.tz(n.a) } else { l } }
            Op::ZExt | Op::SExt => self.tz(n.a),
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(n.a).min(self.tz(n.b)),
            Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(n.w as u32),
            Op::And => self.tz(n.a).max(self.tz(n.b)),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }
    pub fn new_epoch(&mut self) { self.epoch += 1; }
    /// Evaluate under an assignment of the input bytes. `new_epoch` must be called when `m` changes.
    pub fn eval(&mut self, t: T, m: &[u8]) -> u128 {
        let i = t as usize;
        if self.memo_epoch[i] == self.epoch { return self.memo_val[i] }
        let n = self.nodes[i];
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => n.k,
            Op::Var => *m.get(n.k as usize).unwrap_or(&0) as u128,
            Op::Not => !self.eval(n.a, m) & mask(w),
            Op::Ite => if self.eval(n.a, m) == 1 { self.eval(n.b, m) } else { self.eval(n.c, m) },
            Op::Concat => { let wl = self.w(n.b); (self.eval(n.a, m) << wl) | self.eval(n.b, m) }
            Op::Extract => (self.eval(n.a, m) >> n.c) & mask(w),
            Op::ZExt => self.eval(n.a, m),
            Op::SExt => { let iw = self.w(n.a); (sx(self.eval(n.a, m), iw) as u128) & mask(w) }
            op => { let iw = self.w(n.a); let x = self.eval(n.a, m); let y = self.eval(n.b, m); fold(op, iw, x, y) }
        };
        self.memo_epoch[i] = self.epoch;
        self.memo_val[i] = r;
        r
    }
}
