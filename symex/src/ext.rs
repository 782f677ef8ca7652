//! Models of the environment: harness intrinsics, LLVM intrinsics and libc.
use crate::exec::*;
use crate::ir::*;
use crate::mem::*;
use crate::term::*;
use std::rc::Rc;

macro_rules! exts { ($($id:ident),* $(,)?) => { #[allow(non_camel_case_types, clippy::upper_case_acronyms)] #[derive(Clone, Copy, PartialEq, Eq, Debug)] #[repr(u32)] enum X { $($id),* } const ALL: &[X] = &[$(X::$id),*]; } }
exts!(Panic, SymByte, SymAssume, SymCover, SymTrace, SymConc, SymParam, SymFail, SymSym, SymFile, SymRefuse, HashStr, HashRef, HashString, Open, Read, Realpath, Strerror, Memcpy, Memset, Bcmp, Memcmp, Strlen,
    Malloc, Calloc, Realloc, Free, PosixMemalign, KeyCreate, Ret0, RetNeg1, Write, Errno, Void, Abort, ThreadLocal, StackPtr,
    UaddO, UsubO, UmulO, SaddO, SsubO, SmulO, UaddSat, UsubSat, SaddSat, SsubSat, Umax, Umin, Smax, Smin, Ctlz, Cttz, Ctpop, Bswap, Bitreverse, Fshl, Fshr, Abs, Ucmp, Scmp, IsConst, Expect, Trap, RedOr, RedAnd, RedAdd, RedUmax, RedUmin, RedXor,
    Getrandom, Syscall, RemStack, Getenv, GetAttrStack, Memchr, PtrMask);

pub fn lookup(n: &str, defined: bool) -> Option<u32> {
    let x = match n {
        "sym_byte" => X::SymByte,
        "sym_assume" => X::SymAssume,
        "sym_cover" => X::SymCover,
        "sym_trace" => X::SymTrace,
        "sym_conc" => X::SymConc,
        "sym_param" => X::SymParam,
        "sym_fail" => X::SymFail,
        "sym_is_symbolic" => X::SymSym,
        "sym_file" => X::SymFile,
        "sym_refuse" => X::SymRefuse,
        "open64" | "open" => X::Open,
        "read" => X::Read,
        "realpath" => X::Realpath,
        "__xpg_strerror_r" | "strerror_r" => X::Strerror,
        "memcpy" | "memmove" => X::Memcpy,
        "memset" => X::Memset,
        "bcmp" => X::Bcmp,
        "memcmp" => X::Memcmp,
        "strlen" => X::Strlen,
        "memchr" => X::Memchr,
        "malloc" => X::Malloc,
        "calloc" => X::Calloc,
        "realloc" => X::Realloc,
        "free" => X::Free,
        "posix_memalign" => X::PosixMemalign,
        "pthread_key_create" => X::KeyCreate,
        "pthread_key_delete" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "close" | "sigaction" | "pthread_attr_destroy" | "pthread_getattr_np" | "pthread_self" | "pthread_attr_init" => X::Ret0,
        "pthread_attr_getstack" => X::GetAttrStack,
        "getenv" | "getcwd" => X::Getenv,
        "stat64" | "statx" | "readlink" | "fstat64" | "lseek64" => X::RetNeg1,
        "write" | "writev" => X::Write,
        "__errno_location" => X::Errno,
        "abort" | "_exit" | "exit" => X::Abort,
        "getrandom" => X::Getrandom,
        "syscall" => X::Syscall,
        "rust_psm_stack_pointer" => X::StackPtr,
        _ => {
            if let Some(r) = n.strip_prefix("llvm.") {
                let starts = |p: &str| r.starts_with(p);
                if starts("memcpy") || starts("memmove") { X::Memcpy }
                else if starts("memset") { X::Memset }
                else if starts("lifetime") || starts("experimental.noalias") || starts("dbg") || starts("assume") || starts("prefetch") || starts("x86.sse2.pause") || starts("va_") || starts("donothing") { X::Void }
                else if starts("threadlocal.address") || starts("ptr.annotation") || starts("launder") || starts("strip") { X::ThreadLocal }
                else if starts("uadd.with.overflow") { X::UaddO }
                else if starts("usub.with.overflow") { X::UsubO }
                else if starts("umul.with.overflow") { X::UmulO }
                else if starts("sadd.with.overflow") { X::SaddO }
                else if starts("ssub.with.overflow") { X::SsubO }
                else if starts("smul.with.overflow") { X::SmulO }
                else if starts("uadd.sat") { X::UaddSat }
                else if starts("usub.sat") { X::UsubSat }
                else if starts("sadd.sat") { X::SaddSat }
                else if starts("ssub.sat") { X::SsubSat }
                else if starts("umax") { X::Umax }
                else if starts("umin") { X::Umin }
                else if starts("smax") { X::Smax }
                else if starts("smin") { X::Smin }
                else if starts("ctlz") { X::Ctlz }
                else if starts("cttz") { X::Cttz }
                else if starts("ctpop") { X::Ctpop }
                else if starts("bswap") { X::Bswap }
                else if starts("bitreverse") { X::Bitreverse }
                else if starts("fshl") { X::Fshl }
                else if starts("fshr") { X::Fshr }
                else if starts("abs") { X::Abs }
                else if starts("ucmp") { X::Ucmp }
                else if starts("scmp") { X::Scmp }
                else if starts("is.constant") { X::IsConst }
                else if starts("expect") { X::Expect }
                else if starts("trap") || starts("ubsantrap") || starts("debugtrap") { X::Trap }
                else if starts("vector.reduce.or") { X::RedOr }
                else if starts("vector.reduce.and") { X::RedAnd }
                else if starts("vector.reduce.add") { X::RedAdd }
                else if starts("vector.reduce.umax") { X::RedUmax }
                else if starts("vector.reduce.umin") { X::RedUmin }
                else if starts("vector.reduce.xor") { X::RedXor }
                else if starts("ptrmask") { X::PtrMask }
                else { return None }
            } else if n.contains("6random11RandomStateNtNt") && n.contains("8hash_one") {
                // The hash of a text is randomly keyed, so nothing may depend on it; one that only looks at the length keeps symbolic keys symbolic.
                let t = &n[n.find("8hash_one").unwrap() + 9..];
                if t.starts_with("ReC") { X::HashStr } else if t.starts_with("RReC") { X::HashRef }
                else if t.starts_with("RNtNtC") && t.contains("5alloc6string6String") { X::HashString } else { let _ = defined; return None }
            } else if n.contains("4core9panicking") && !n.contains("3fmt") { X::Panic }
            else if n.contains("7stacker15remaining_stack") { X::RemStack }
            else { let _ = defined; return None }
        }
    };
    Some(x as u32)
}

fn set(st: &mut State, dst: u32, v: Val) -> Result<Flow, End> { if dst != u32::MAX { st.cur.regs[dst as usize] = v } Ok(Flow::Next) }

/// Pairs of copied bytes of a range: (data, sym)
fn copy(ex: &mut Ex, st: &mut State, d: u64, s: u64, n: u64) -> Result<(), End> {
    if n == 0 { return Ok(()) }
    let (sid, so) = ex.check_range(st, s, n, false)?;
    let (did, doff) = ex.check_range(st, d, n, true)?;
    let n = n as usize;
    let src = st.mem.get(sid).unwrap().clone();
    let o = Rc::make_mut(st.mem.slot(did).as_mut().unwrap());
    o.data[doff..doff + n].copy_from_slice(&src.data[so..so + n]);
    match &src.sym {
        Some(ss) => { let l = o.data.len(); let os = o.sym.get_or_insert_with(|| vec![0; l]); os[doff..doff + n].copy_from_slice(&ss[so..so + n]); if os.iter().all(|x| *x == 0) { o.sym = None } }
        None => if let Some(os) = &mut o.sym { for x in &mut os[doff..doff + n] { *x = 0 } },
    }
    Ok(())
}

fn lanes(ex: &mut Ex, ty: &Ty, args: &[Val], f: &mut dyn FnMut(&mut Ex, u32, &[Val]) -> Val) -> Val {
    match ty {
        Ty::Vec(n, e) => {
            let w = e.width();
            let v = (0..*n as usize).map(|i| {
                let a: Vec<Val> = args.iter().map(|x| match x { Val::Agg(v) => v[i].clone(), o => o.clone() }).collect();
                f(ex, w, &a)
            }).collect();
            Val::Agg(Rc::new(v))
        }
        _ => f(ex, ty.width(), args),
    }
}

/// Bytes of a C string or of `n` bytes, if they are all concrete.
fn conc_bytes(ex: &mut Ex, st: &mut State, p: u64, n: Option<u64>) -> Result<Option<Vec<u8>>, End> {
    let mut v = vec![];
    let mut i = 0;
    loop {
        if n == Some(i) { return Ok(Some(v)) }
        match ex.read_byte(st, p + i)? { Val::C(0) if n.is_none() => return Ok(Some(v)), Val::C(b) => v.push(b as u8), _ => return Ok(None) }
        i += 1;
    }
}
/// The file of a name. A name with something symbolic in it is compared byte by byte with each file's path.
fn find(ex: &mut Ex, st: &mut State, p: u64) -> Result<Option<usize>, End> {
    if st.files.is_empty() { return Ok(None) }
    if let Some(v) = conc_bytes(ex, st, p, None)? { let n = normal(&v); return Ok(st.files.iter().position(|x| x.0 == n)) }
    let (oid, off) = split(p);
    let room = st.mem.get(oid).map_or(0, |o| o.data.len() as u64 - off);
    for i in 0..st.files.len() {
        let name = st.files[i].0.clone().into_bytes();
        if (name.len() as u64) >= room { continue }
        let mut all = ex.ar.konst(1, 1);
        for (k, c) in name.iter().copied().chain(Some(0)).enumerate() {
            let b = ex.read_byte(st, p + k as u64)?;
            let b = ex.term(&b, 8);
            let c = ex.ar.konst(8, c as u128);
            let e = ex.ar.bin(Op::Eq, b, c);
            all = ex.ar.bin(Op::And, all, e);
        }
        if ex.decide(st, all) { return Ok(Some(i)) }
    }
    Ok(None)
}
/// A path without `.` and `..`.
fn normal(v: &[u8]) -> String {
    let s = String::from_utf8_lossy(v).into_owned();
    let mut o: Vec<&str> = vec![];
    for c in s.split('/') { match c { "" | "." => {} ".." => { o.pop(); } c => o.push(c) } }
    o.join("/")
}

pub fn call(ex: &mut Ex, st: &mut State, x: u32, id: u32, ret: &Ty, args: &[(Ty, O)], dst: u32) -> Result<Flow, End> {
    let x = ALL[x as usize];
    let aty = |i: usize| args[i].0.clone();
    macro_rules! arg { ($i:expr) => { ex.op(st, &args[$i].1) } }
    macro_rules! argc { ($i:expr) => { ex.opc(st, &args[$i].1, aty($i).width())? } }
    match x {
        X::Panic => {
            let n = ex.fn_names[id as usize].clone();
            Err(End::Bad("panic".into(), n.to_string()))
        }
        X::SymByte => {
            let t = ex.ar.var(st.nvars);
            st.nvars += 1;
            let v = Val::T(t);
            set(st, dst, v)
        }
        X::SymAssume => {
            match arg!(0) {
                Val::C(k) => if k & 1 == 1 { Ok(Flow::Next) } else { Err(End::Killed) },
                Val::T(t) => {
                    if ex.ev(st, t) != 1 {
                        match ex.feasible(st, t) {
                            Some(m) => { st.model = m; ex.ar.new_epoch(); }
                            None => return Err(End::Killed),
                        }
                    }
                    ex.add_pc(st, t);
                    Ok(Flow::Next)
                }
                _ => panic!(),
            }
        }
        X::SymCover => {
            let k = argc!(0) as u32;
            if !ex.covers.contains_key(&k) { let b = ex.bytes_of(st); ex.covers.insert(k, b); }
            Ok(Flow::Next)
        }
        X::HashStr => { let l = argc!(2); set(st, dst, Val::C(l.wrapping_mul(0x9E37_79B9_7F4A_7C15))) }
        X::HashRef | X::HashString => {
            let p = argc!(1);
            let at = if x == X::HashRef { 8 } else { 16 };
            let l = match ex.load_at(st, &Ty::Int(64), p + at)? { Val::C(l) => l, _ => return Err(End::Fatal("hash of a text of symbolic length".into())) };
            set(st, dst, Val::C(l.wrapping_mul(0x9E37_79B9_7F4A_7C15)))
        }
        X::SymRefuse => { st.refuse = argc!(0) & 1 == 1; Ok(Flow::Next) }
        X::SymTrace => { let v = arg!(0); st.trace.push(v); Ok(Flow::Next) }
        X::SymConc => { let k = argc!(0); set(st, dst, Val::C(k)) }
        X::SymParam => { let k = argc!(0); let v = ex.params.get(k as usize).copied().unwrap_or(0); set(st, dst, Val::C(v)) }
        X::SymFail => {
            let (p, n) = (argc!(0), argc!(1));
            let mut m = vec![];
            for i in 0..n { if let Val::C(b) = ex.read_byte(st, p + i)? { m.push(b as u8) } }
            Err(End::Bad("assert".into(), String::from_utf8_lossy(&m).into_owned()))
        }
        X::SymFile => {
            let (p, n) = (argc!(0), argc!(1));
            let (d, l) = (argc!(2), argc!(3));
            let path = match conc_bytes(ex, st, p, Some(n))? { Some(v) => normal(&v), None => return Err(End::Fatal("file with a symbolic name".into())) };
            let f = Rc::make_mut(&mut st.files);
            f.retain(|x| x.0 != path);
            f.push((path, d, l));
            Ok(Flow::Next)
        }
        X::Open => {
            let p = argc!(0);
            let w = ret.width();
            let r = find(ex, st, p)?;
            match r {
                Some(i) => { let k = st.fds.len(); Rc::make_mut(&mut st.fds).push((i, 0)); let v = ex.mkc(w, (k + 100) as u128); set(st, dst, v) }
                None => { let v = ex.mkc(w, u128::MAX); set(st, dst, v) }
            }
        }
        X::Read => {
            let (fd, buf, n) = (argc!(0), argc!(1), argc!(2));
            let w = ret.width();
            let Some(&(i, off)) = st.fds.get((fd as usize).wrapping_sub(100)) else { let v = ex.mkc(w, u128::MAX); return set(st, dst, v) };
            let (_, d, l) = st.files[i].clone();
            let k = (l - off).min(n);
            if k > 0 { copy(ex, st, buf, d + off, k)?; }
            Rc::make_mut(&mut st.fds)[fd as usize - 100].1 += k;
            let v = ex.mkc(w, k as u128);
            set(st, dst, v)
        }
        X::Realpath => {
            let p = argc!(0);
            if argc!(1) != 0 { return Err(End::Fatal("realpath into a buffer".into())) }
            if let Some(i) = find(ex, st, p)? {
                let s = format!("/v/{}", st.files[i].0);
                let a = st.mem.alloc_heap(s.len() as u64 + 1);
                let (oid, _) = split(a);
                let o = &mut Rc::make_mut(st.mem.slot(oid).as_mut().unwrap()).data;
                o[..s.len()].copy_from_slice(s.as_bytes());
                o[s.len()] = 0;
                set(st, dst, Val::C(a))
            } else { set(st, dst, Val::C(0)) }
        }
        X::Strerror => {
            let (b, n) = (argc!(1), argc!(2));
            let s = b"No such file or directory\0";
            if (n as usize) < s.len() { return Err(End::Fatal("strerror_r buffer".into())) }
            for (i, c) in s.iter().enumerate() { ex.store_at(st, &Ty::Int(8), &Val::C(*c as u64), b + i as u64)? }
            let z = ex.zero(ret);
            set(st, dst, z)
        }
        X::SymSym => { let v = arg!(0); set(st, dst, Val::C(matches!(v, Val::T(_)) as u64)) }
        X::Memcpy => {
            let n = argc!(2);
            let d = argc!(0);
            let s = argc!(1);
            copy(ex, st, d, s, n)?;
            if ret != &Ty::Void { set(st, dst, Val::C(d)) } else { Ok(Flow::Next) }
        }
        X::Memset => {
            let n = argc!(2);
            let d = argc!(0);
            let v = arg!(1);
            if n > 0 {
                let (oid, off) = ex.check_range(st, d, n, true)?;
                let v = match v { Val::T(t) => { let t = ex.ar.extract(t, 7, 0); ex.val(t) } Val::C(k) => Val::C(k & 0xff), _ => panic!() };
                let t = ex.term(&v, 8);
                let mut o = st.mem.get(oid).unwrap().clone();
                {
                    let om = Rc::make_mut(&mut o);
                    for i in 0..n as usize { ex.put_byte(om, off + i, t) }
                }
                *st.mem.slot(oid) = Some(o);
            }
            if ret != &Ty::Void { set(st, dst, Val::C(d)) } else { Ok(Flow::Next) }
        }
        X::Bcmp | X::Memcmp => {
            let n = argc!(2);
            let a = argc!(0);
            let b = argc!(1);
            if n == 0 { return set(st, dst, Val::C(0)) }
            ex.check_range(st, a, n, false)?;
            ex.check_range(st, b, n, false)?;
            if x == X::Bcmp {
                let mut eq = 1;
                for i in 0..n {
                    let (p, q) = (ex.read_byte(st, a + i)?, ex.read_byte(st, b + i)?);
                    let (p, q) = (ex.term(&p, 8), ex.term(&q, 8));
                    let e = ex.ar.bin(Op::Eq, p, q);
                    eq = ex.ar.bin(Op::And, eq, e);
                    if eq == 0 { break }
                }
                let (z, o) = (ex.ar.konst(32, 0), ex.ar.konst(32, 1));
                let r = ex.ar.ite(eq, z, o);
                let v = ex.val(r);
                return set(st, dst, v);
            }
            let mut r = ex.ar.konst(32, 0);
            for i in (0..n).rev() {
                let (p, q) = (ex.read_byte(st, a + i)?, ex.read_byte(st, b + i)?);
                let (p, q) = (ex.term(&p, 8), ex.term(&q, 8));
                let e = ex.ar.bin(Op::Eq, p, q);
                let l = ex.ar.bin(Op::Ult, p, q);
                let (neg, pos) = (ex.ar.konst(32, u128::MAX), ex.ar.konst(32, 1));
                let d = ex.ar.ite(l, neg, pos);
                r = ex.ar.ite(e, r, d);
            }
            let v = ex.val(r);
            set(st, dst, v)
        }
        X::Strlen => {
            let a = argc!(0);
            let mut i = 0;
            loop {
                match ex.read_byte(st, a + i)? { Val::C(0) => break, Val::C(_) => {} _ => return Err(End::Fatal("strlen on symbolic data".into())) }
                i += 1;
            }
            set(st, dst, Val::C(i))
        }
        X::Memchr => {
            let n = argc!(2);
            let a = argc!(0);
            let c = argc!(1) & 0xff;
            for i in 0..n {
                let p = ex.read_byte(st, a + i)?;
                let p = ex.term(&p, 8);
                let k = ex.ar.konst(8, c as u128);
                let e = ex.ar.bin(Op::Eq, p, k);
                if ex.decide(st, e) { return set(st, dst, Val::C(a + i)) }
            }
            set(st, dst, Val::C(0))
        }
        X::Malloc => { let n = argc!(0); if n > 1 << 26 { return Err(End::Bad("blowup".into(), format!("malloc of {} bytes", n))) } let a = st.mem.alloc_heap(n); set(st, dst, Val::C(a)) }
        X::Calloc => {
            let n = argc!(0).wrapping_mul(argc!(1));
            if n > 1 << 26 { return Err(End::Fatal(format!("calloc of {} bytes", n))) }
            let a = st.mem.alloc_heap(n);
            let (oid, _) = split(a);
            for b in &mut Rc::make_mut(st.mem.slot(oid).as_mut().unwrap()).data { *b = 0 }
            set(st, dst, Val::C(a))
        }
        X::KeyCreate => {
            // Any key but 0 will do: nothing reads back what is stored under it, there being one thread that ends with the run.
            let p = argc!(0);
            ex.store_at(st, &Ty::Int(32), &Val::C(1), p)?;
            set(st, dst, Val::C(0))
        }
        X::PosixMemalign => {
            let n = argc!(2);
            let p = argc!(0);
            let a = st.mem.alloc_heap(n);
            ex.store_at(st, &Ty::Ptr, &Val::C(a), p)?;
            set(st, dst, Val::C(0))
        }
        X::Realloc => {
            let n = argc!(1);
            let p = argc!(0);
            let a = st.mem.alloc_heap(n);
            if p != 0 {
                let (oid, _) = split(p);
                let l = match st.mem.get(oid) { Some(o) => o.data.len() as u64, None => return Err(End::Bad("memory".into(), "realloc of invalid pointer".into())) };
                copy(ex, st, a, p, l.min(n))?;
                *st.mem.slot(oid) = None;
                st.mem.heap_free.push(oid - HEAP0);
            }
            set(st, dst, Val::C(a))
        }
        X::Free => {
            let p = argc!(0);
            if p != 0 {
                let (oid, off) = split(p);
                if off != 0 || !(HEAP0..STACK0).contains(&oid) || st.mem.get(oid).is_none() { return Err(End::Bad("memory".into(), format!("invalid free {:#x}", p))) }
                *st.mem.slot(oid) = None;
                st.mem.heap_free.push(oid - HEAP0);
            }
            Ok(Flow::Next)
        }
        X::Ret0 => { let z = ex.zero(ret); set(st, dst, z) }
        X::RetNeg1 => { let w = ret.width(); let v = ex.mkc(w, u128::MAX); set(st, dst, v) }
        X::Getenv => { let z = ex.zero(ret); set(st, dst, z) }
        X::Write => { let n = argc!(2); set(st, dst, Val::C(n)) }
        X::Errno => { let a = st.mem.alloc_heap(4); ex.store_at(st, &Ty::Int(32), &Val::C(2), a)?; set(st, dst, Val::C(a)) }
        X::Void => Ok(Flow::Next),
        X::Abort => Err(End::Bad("abort".into(), ex.fn_names[id as usize].to_string())),
        X::Trap => Err(End::Bad("trap".into(), "llvm.trap".into())),
        X::ThreadLocal | X::Expect => { let v = arg!(0); set(st, dst, v) }
        X::StackPtr => set(st, dst, Val::C(0x7fff_0000_0000)),
        X::RemStack => set(st, dst, Val::Agg(Rc::new(vec![Val::C(1), Val::C(1 << 40)]))),
        X::GetAttrStack => {
            let (p, q) = (argc!(1), argc!(2));
            ex.store_at(st, &Ty::Int(64), &Val::C(0x1000), p)?;
            ex.store_at(st, &Ty::Int(64), &Val::C(0x7fff_0000_0000), q)?;
            set(st, dst, Val::C(0))
        }
        X::Getrandom => {
            let n = argc!(1);
            let p = argc!(0);
            for i in 0..n { ex.store_at(st, &Ty::Int(8), &Val::C(7), p + i)?; }
            set(st, dst, Val::C(n))
        }
        X::Syscall => {
            let k = argc!(0);
            if k == 318 {
                let p = argc!(1);
                let n = argc!(2);
                for i in 0..n { ex.store_at(st, &Ty::Int(8), &Val::C(7), p + i)?; }
                return set(st, dst, Val::C(n));
            }
            Err(End::Fatal(format!("syscall {}", k)))
        }
        X::PtrMask => { let (a, b) = (arg!(0), arg!(1)); let v = ex.bin(BinOp::And, 64, &a, &b); set(st, dst, v) }
        X::UaddO | X::UsubO | X::UmulO | X::SaddO | X::SsubO | X::SmulO => {
            let (a, b) = (arg!(0), arg!(1));
            let w = aty(0).width();
            if let (Val::C(p), Val::C(q)) = (&a, &b) {
                let (p, q) = (*p as u128, *q as u128);
                let (sp, sq) = (sx(p, w), sx(q, w));
                let (r, o) = match x {
                    X::UaddO => { let r = p + q; (r, r > mask(w)) }
                    X::UsubO => (p.wrapping_sub(q), p < q),
                    X::UmulO => { let r = p * q; (r, r > mask(w)) }
                    X::SaddO => { let r = sp + sq; (r as u128, r != sx(r as u128 & mask(w), w)) }
                    X::SsubO => { let r = sp - sq; (r as u128, r != sx(r as u128 & mask(w), w)) }
                    _ => { let r = sp * sq; (r as u128, r != sx(r as u128 & mask(w), w)) }
                };
                let v = Val::Agg(Rc::new(vec![Val::C((r & mask(w)) as u64), Val::C(o as u64)]));
                return set(st, dst, v);
            }
            let (p, q) = (ex.term(&a, w), ex.term(&b, w));
            let signed = matches!(x, X::SaddO | X::SsubO | X::SmulO);
            let ew = if matches!(x, X::UmulO | X::SmulO) { 2 * w } else { w + 1 };
            if ew > 128 { return Err(End::Fatal("wide overflow op".into())) }
            let op = match x { X::UaddO | X::SaddO => Op::Add, X::UsubO | X::SsubO => Op::Sub, _ => Op::Mul };
            let r = ex.ar.bin(op, p, q);
            let o = if x == X::UaddO { ex.ar.bin(Op::Ult, r, p) } else if x == X::UsubO { ex.ar.bin(Op::Ult, p, q) } else {
                let (pe, qe) = if signed { (ex.ar.sext(p, ew), ex.ar.sext(q, ew)) } else { (ex.ar.zext(p, ew), ex.ar.zext(q, ew)) };
                let re = ex.ar.bin(op, pe, qe);
                let rr = if signed { ex.ar.sext(r, ew) } else { ex.ar.zext(r, ew) };
                let e = ex.ar.bin(Op::Eq, re, rr);
                ex.ar.not(e)
            };
            // cheap interval refutation of unsigned overflow
            let o = match x {
                X::UaddO => { let (u, v) = (ex.ar.ubound(p), ex.ar.ubound(q)); if u.checked_add(v).map_or(false, |s| s <= mask(w)) { 0 } else { o } }
                X::UmulO => { let (u, v) = (ex.ar.ubound(p), ex.ar.ubound(q)); if u.checked_mul(v).map_or(false, |s| s <= mask(w)) { 0 } else { o } }
                _ => o,
            };
            let v = Val::Agg(Rc::new(vec![ex.val(r), ex.val(o)]));
            set(st, dst, v)
        }
        X::UaddSat | X::UsubSat | X::Umax | X::Umin | X::Smax | X::Smin | X::SaddSat | X::SsubSat => {
            let (a, b) = (arg!(0), arg!(1));
            let v = lanes(ex, ret, &[a, b], &mut |ex, w, a| {
                let (p, q) = (ex.term(&a[0], w), ex.term(&a[1], w));
                let r = match x {
                    X::UaddSat => { let s = ex.ar.bin(Op::Add, p, q); let o = ex.ar.bin(Op::Ult, s, p); let m = ex.ar.konst(w, u128::MAX); ex.ar.ite(o, m, s) }
                    X::UsubSat => { let s = ex.ar.bin(Op::Sub, p, q); let o = ex.ar.bin(Op::Ult, p, q); let m = ex.ar.konst(w, 0); ex.ar.ite(o, m, s) }
                    X::Umax => { let c = ex.ar.bin(Op::Ult, p, q); ex.ar.ite(c, q, p) }
                    X::Umin => { let c = ex.ar.bin(Op::Ult, p, q); ex.ar.ite(c, p, q) }
                    X::Smax => { let c = ex.ar.bin(Op::Slt, p, q); ex.ar.ite(c, q, p) }
                    X::Smin => { let c = ex.ar.bin(Op::Slt, p, q); ex.ar.ite(c, p, q) }
                    _ => {
                        let op = if x == X::SaddSat { Op::Add } else { Op::Sub };
                        let (pe, qe) = (ex.ar.sext(p, w + 1), ex.ar.sext(q, w + 1));
                        let s = ex.ar.bin(op, pe, qe);
                        let r = ex.ar.bin(op, p, q);
                        let rs = ex.ar.sext(r, w + 1);
                        let ok = ex.ar.bin(Op::Eq, s, rs);
                        let neg = ex.ar.extract(s, w, w);
                        let (mn, mx) = (ex.ar.konst(w, 1u128 << (w - 1)), ex.ar.konst(w, mask(w - 1)));
                        let sat = ex.ar.ite(neg, mn, mx);
                        ex.ar.ite(ok, r, sat)
                    }
                };
                ex.val(r)
            });
            set(st, dst, v)
        }
        X::Ctlz | X::Cttz | X::Ctpop | X::Bswap | X::Bitreverse | X::Abs => {
            let a = arg!(0);
            let v = lanes(ex, ret, &[a], &mut |ex, w, a| {
                let t = ex.term(&a[0], w);
                if let Some(k) = ex.ar.as_const(t) {
                    let r = match x {
                        X::Ctlz => (if k == 0 { w } else { k.leading_zeros() - (128 - w) }) as u128,
                        X::Cttz => (if k == 0 { w } else { k.trailing_zeros() }) as u128,
                        X::Ctpop => k.count_ones() as u128,
                        X::Bswap => k.swap_bytes() >> (128 - w),
                        X::Bitreverse => k.reverse_bits() >> (128 - w),
                        _ => { let s = sx(k, w); (s.unsigned_abs()) & mask(w) }
                    };
                    return ex.mkc(w, r);
                }
                let r = match x {
                    X::Ctlz => { let mut r = ex.ar.konst(w, w as u128); for i in 0..w { let b = ex.ar.extract(t, i, i); let k = ex.ar.konst(w, (w - 1 - i) as u128); r = ex.ar.ite(b, k, r) } r }
                    X::Cttz => { let mut r = ex.ar.konst(w, w as u128); for i in (0..w).rev() { let b = ex.ar.extract(t, i, i); let k = ex.ar.konst(w, i as u128); r = ex.ar.ite(b, k, r) } r }
                    X::Ctpop => { let mut r = ex.ar.konst(w, 0); for i in 0..w { let b = ex.ar.extract(t, i, i); let z = if w == 1 { b } else { ex.ar.zext(b, w) }; r = ex.ar.bin(Op::Add, r, z) } r }
                    X::Bswap => { let n = w / 8; let mut r = ex.ar.extract(t, 7, 0); for i in 1..n { let b = ex.ar.extract(t, i * 8 + 7, i * 8); r = ex.ar.concat(r, b) } r }
                    X::Bitreverse => { let mut r = ex.ar.extract(t, 0, 0); for i in 1..w { let b = ex.ar.extract(t, i, i); r = ex.ar.concat(r, b) } r }
                    _ => { let z = ex.ar.konst(w, 0); let n = ex.ar.bin(Op::Sub, z, t); let s = ex.ar.extract(t, w - 1, w - 1); ex.ar.ite(s, n, t) }
                };
                ex.val(r)
            });
            set(st, dst, v)
        }
        X::Fshl | X::Fshr => {
            let k = argc!(2);
            let (a, b) = (arg!(0), arg!(1));
            let w = ret.width();
            let k = k as u32 % w;
            let (p, q) = (ex.term(&a, w), ex.term(&b, w));
            let r = if k == 0 { if x == X::Fshl { p } else { q } } else {
                let l = if x == X::Fshl { k } else { w - k };
                let hi = ex.ar.extract(p, w - 1 - l, 0);
                let lo = ex.ar.extract(q, w - 1, w - l);
                ex.ar.concat(hi, lo)
            };
            let v = ex.val(r);
            set(st, dst, v)
        }
        X::Ucmp | X::Scmp => {
            let (a, b) = (arg!(0), arg!(1));
            let iw = aty(0).width();
            let w = ret.width();
            let (p, q) = (ex.term(&a, iw), ex.term(&b, iw));
            let op = if x == X::Ucmp { Op::Ult } else { Op::Slt };
            let lt = ex.ar.bin(op, p, q);
            let gt = ex.ar.bin(op, q, p);
            let (m, z, o) = (ex.ar.konst(w, u128::MAX), ex.ar.konst(w, 0), ex.ar.konst(w, 1));
            let r = ex.ar.ite(gt, o, z);
            let r = ex.ar.ite(lt, m, r);
            let v = ex.val(r);
            set(st, dst, v)
        }
        X::IsConst => set(st, dst, Val::C(0)),
        X::RedOr | X::RedAnd | X::RedAdd | X::RedUmax | X::RedUmin | X::RedXor => {
            let v = match arg!(0) { Val::Agg(v) => v, _ => panic!() };
            let w = ret.width();
            let mut r = ex.term(&v[0], w);
            for x2 in v.iter().skip(1) {
                let q = ex.term(x2, w);
                r = match x {
                    X::RedOr => ex.ar.bin(Op::Or, r, q),
                    X::RedAnd => ex.ar.bin(Op::And, r, q),
                    X::RedAdd => ex.ar.bin(Op::Add, r, q),
                    X::RedXor => ex.ar.bin(Op::Xor, r, q),
                    X::RedUmax => { let c = ex.ar.bin(Op::Ult, r, q); ex.ar.ite(c, q, r) }
                    _ => { let c = ex.ar.bin(Op::Ult, r, q); ex.ar.ite(c, r, q) }
                };
            }
            let v = ex.val(r);
            set(st, dst, v)
        }
    }
}
