//! Models of everything that is not IR: LLVM intrinsics, libc, and the harness interface.
use crate::code::*;
use crate::exec::*;
use crate::expr::*;
use std::rc::Rc;

extern "C" {
    pub fn fork() -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn getpid() -> i32;
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    Nop,
    Zero,
    Unknown,
    Panic,
    Abort,
    // harness
    SymInt,
    SymF64,
    SymAssume,
    SymAssert,
    SymCover,
    SymTrace,
    SymNote,
    SymConc,
    SymFeq,
    SymFle,
    SymFail,
    SymEnd,
    SymIte,
    SymIsEngine,
    // memory
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Memchr,
    // llvm
    Assume,
    UMax,
    UMin,
    SMax,
    SMin,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitRev,
    Fshl,
    Fshr,
    Abs,
    UCmp,
    SCmp,
    IsConstant,
    Expect,
    ThreadLocal,
    LoadRelative,
    FAbs,
    FSqrt,
    FRound,
    F32Fn(u8),
    FFloor,
    FCeil,
    FTrunc,
    FRint,
    FMinNum,
    FMaxNum,
    FCopySign,
    FToSSat,
    FToUSat,
    FMulAdd,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
    PtrMask,
    Trap,
    // math
    Math1(u8),
    Math2(u8),
    // libc
    GetEnv,
    Sys(u8),
}

#[derive(Clone, Default)]
pub struct Fs {
    pub files: std::collections::BTreeMap<Vec<u8>, Rc<Vec<u8>>>,
    pub fds: std::collections::BTreeMap<i32, (Vec<u8>, u64)>,
    pub next_fd: i32,
    pub log: Vec<String>,
    pub out: Vec<(i32, Vec<u8>)>,
    pub fault_at: i64,
    pub op: i64,
}

pub const MATH1: &[&str] = &["sin", "cos", "tan", "atan", "asin", "acos", "exp", "log", "log10", "exp2", "log2"];
pub const MATH2: &[&str] = &["atan2", "pow", "fmod", "hypot", "powi"];

pub fn resolve(name: &str) -> Ext {
    use Ext::*;
    match name {
        "sym_int" => return SymInt,
        "sym_f64" => return SymF64,
        "sym_assume" => return SymAssume,
        "sym_assert" => return SymAssert,
        "sym_cover" => return SymCover,
        "sym_trace" => return SymTrace,
        "sym_note" => return SymNote,
        "sym_conc" => return SymConc,
        "sym_feq" => return SymFeq,
        "sym_fle" => return SymFle,
        "sym_fail" => return SymFail,
        "sym_end" => return SymEnd,
        "sym_ite" => return SymIte,
        "sym_is_engine" => return SymIsEngine,
        "malloc" => return Malloc,
        "calloc" => return Calloc,
        "realloc" => return Realloc,
        "free" => return Free,
        "posix_memalign" => return PosixMemalign,
        "memcpy" | "memmove" => return Memcpy,
        "memset" => return Memset,
        "bcmp" => return Bcmp,
        "memcmp" => return Memcmp,
        "strlen" => return Strlen,
        "memchr" => return Memchr,
        "getenv" => return GetEnv,
        "abort" => return Abort,
        "pthread_self" => return Zero,
        _ => {}
    }
    if let Some(n) = name.strip_prefix("llvm.") {
        let b: Vec<&str> = n.split('.').collect();
        if b.last() == Some(&"f32") {
            return match b[0] {
                "round" => F32Fn(0),
                "floor" => F32Fn(1),
                "ceil" => F32Fn(2),
                "trunc" => F32Fn(3),
                "sqrt" => F32Fn(4),
                "fabs" => F32Fn(5),
                "fptoui" => F32Fn(6),
                _ => Unknown,
            };
        }
        return match b[0] {
            "lifetime" | "experimental" | "dbg" | "prefetch" | "invariant" | "donothing" | "x86" if n != "x86.sse2.pmovmskb.128" => Nop,
            "memcpy" | "memmove" => Memcpy,
            "memset" => Memset,
            "assume" => Assume,
            "trap" | "ubsantrap" => Trap,
            "umax" => UMax,
            "umin" => UMin,
            "smax" => SMax,
            "smin" => SMin,
            "uadd" if b[1] == "sat" => UAddSat,
            "usub" if b[1] == "sat" => USubSat,
            "sadd" if b[1] == "sat" => SAddSat,
            "ssub" if b[1] == "sat" => SSubSat,
            "uadd" => UAddO,
            "usub" => USubO,
            "umul" => UMulO,
            "sadd" => SAddO,
            "ssub" => SSubO,
            "smul" => SMulO,
            "ctlz" => Ctlz,
            "cttz" => Cttz,
            "ctpop" => Ctpop,
            "bswap" => Bswap,
            "bitreverse" => BitRev,
            "fshl" => Fshl,
            "fshr" => Fshr,
            "abs" => Abs,
            "ucmp" => UCmp,
            "scmp" => SCmp,
            "is" => IsConstant,
            "expect" => Expect,
            "threadlocal" => ThreadLocal,
            "load" => LoadRelative,
            "fabs" => FAbs,
            "sqrt" => FSqrt,
            "round" => FRound,
            "floor" => FFloor,
            "ceil" => FCeil,
            "trunc" => FTrunc,
            "rint" | "nearbyint" | "roundeven" => FRint,
            "minnum" | "minimumnum" => FMinNum,
            "maxnum" | "maximumnum" => FMaxNum,
            "copysign" => FCopySign,
            "fptosi" => FToSSat,
            "fptoui" => FToUSat,
            "fma" | "fmuladd" => FMulAdd,
            "ptrmask" => PtrMask,
            "vector" => match (b[1], b.get(2)) {
                ("reduce", Some(&"or")) => VecReduceOr,
                ("reduce", Some(&"and")) => VecReduceAnd,
                ("reduce", Some(&"add")) => VecReduceAdd,
                _ => Unknown,
            },
            "sin" => Math1(0),
            "cos" => Math1(1),
            "tan" => Math1(2),
            "exp" => Math1(6),
            "log" => Math1(7),
            "pow" => Math2(1),
            "powi" => Math2(4),
            _ => Unknown,
        };
    }
    if let Some(i) = MATH1.iter().position(|x| *x == name) {
        return Math1(i as u8);
    }
    if let Some(i) = MATH2.iter().position(|x| *x == name) {
        return Math2(i as u8);
    }
    if let Some(i) = crate::sys::NAMES.iter().position(|x| *x == name) {
        return Sys(i as u8);
    }
    Unknown
}

/// functions of the linked program that are replaced by a model
pub fn override_for(name: &str) -> Option<Ext> {
    if name.contains("4core9panicking") || name.contains("17rust_begin_unwind") || name.contains("handle_alloc_error") {
        return Some(Ext::Panic);
    }
    if name.contains("3std9panicking") && (name.contains("panic_fmt") || name.contains("begin_panic") || name.contains("rust_panic") || name.contains("panic_handler")) {
        return Some(Ext::Panic);
    }
    if name.contains("4core6option13expect_failed")
        || name.contains("4core6option13unwrap_failed")
        || name.contains("4core6result13unwrap_failed")
        || name.contains("16slice_error_fail")
        || name.contains("panic_access_error")
        || name.contains("13handle_error")
        || name.contains("17capacity_overflow")
        || (name.contains("4core5slice5index") && name.contains("fail"))
    {
        return Some(Ext::Panic);
    }
    // diagnostics to stderr / stdout: formatting is not the subject
    if name.contains("3std2io5stdio7__eprint") || name.contains("3std2io5stdio6_eprint") || name.contains("3std2io5stdio7_eprint") {
        return Some(Ext::Nop);
    }
    if name.contains("3std6thread7current7current") && false {
        return Some(Ext::Nop);
    }
    if name.contains("hashmap_random_keys") {
        return Some(Ext::Zero);
    }
    None
}

impl Exec {
    pub fn read_str(&mut self, p: &V, n: &V) -> R<String> {
        let a = self.conc_v(p)?;
        let n = self.conc_v(n)?;
        let (o, off) = self.obj(a, n)?;
        Ok(String::from_utf8_lossy(&o.data[off..off + n as usize]).to_string())
    }
    pub fn read_bytes_conc(&mut self, a: u64, n: u64) -> R<Vec<u8>> {
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n {
            let b = self.load_bytes(a + i, 1)?;
            v.push(self.conc_v(&b)? as u8);
        }
        Ok(v)
    }
    fn panic_loc(&mut self, args: &[V]) -> String {
        // the last pointer argument is the &Location { file ptr, file len, line, col }
        for a in args.iter().rev() {
            if let V::C(p) = a {
                if *p >> 32 >= GLOBAL0 && (*p >> 32) < self.st.mem.next {
                    if let (Ok(V::C(f)), Ok(V::C(l)), Ok(V::C(line))) = (self.load_bytes(*p, 8), self.load_bytes(*p + 8, 8), self.load_bytes(*p + 16, 4)) {
                        if l < 300 {
                            if let Ok((o, off)) = self.obj(f, l) {
                                if let Ok(s) = std::str::from_utf8(&o.data[off..off + l as usize]) {
                                    if s.contains(".rs") {
                                        return format!("{}:{}", s.trim_end_matches('\0'), line);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        String::new()
    }
    fn malloc(&mut self, n: u64) -> R<V> {
        if n > 64 << 20 {
            return Err(Stop::Bug(format!("huge allocation of {} bytes", n)));
        }
        Ok(V::C(self.st.mem.alloc(n)))
    }
    fn arg_e(&mut self, args: &[V], widths: &[(O, u8)], i: usize) -> (E, u8) {
        let w = widths[i].1;
        (self.to_e(&args[i], w), w)
    }
    pub fn fresh(&mut self, name: &str, lo: i64, hi: i64) -> R<E> {
        let key = name.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        let k = {
            let c = self.st.counters.entry(key).or_insert(0);
            *c += 1;
            *c
        };
        let full = format!("{}#{}", name, k);
        if let Some(c) = &self.cfg.concrete {
            // concrete replay inside the engine: values by order
            let i = self.st.inputs.len();
            let v = match c.get(i) {
                Some((n, v)) if *n == full => *v,
                _ => return Err(Stop::Engine(format!("replay mismatch at input {} ({})", i, full))),
            };
            let e = self.pool.var(&full, lo, hi, usize::MAX);
            let w = self.pool.w(e);
            if let N::Var(id) = self.pool.node(e) {
                self.st.inputs.push((id, e));
                if self.st.model.len() <= id as usize {
                    self.st.model.resize(id as usize + 1, None);
                }
                self.st.model[id as usize] = Some(v);
            }
            return Ok(self.pool.ci(v as i128, w));
        }
        if lo == hi {
            let c = self.pool.ci(lo as i128, 64);
            return Ok(c);
        }
        let e = self.pool.var_named(&full, lo, hi);
        if let N::Var(id) = self.pool.node(e) {
            self.st.inputs.push((id, e));
            if self.pool.vars.len() > 120 && self.st.inputs.len() > 110 {
                // masks alias beyond 128 variables: still sound, only slower
            }
        }
        Ok(e)
    }
    fn math1(i: u8, x: f64) -> f64 {
        match i {
            0 => x.sin(),
            1 => x.cos(),
            2 => x.tan(),
            3 => x.atan(),
            4 => x.asin(),
            5 => x.acos(),
            6 => x.exp(),
            7 => x.ln(),
            8 => x.log10(),
            9 => x.exp2(),
            _ => x.log2(),
        }
    }

    pub fn ext_call(&mut self, k: Ext, name: &str, args: &[V], wd: &[(O, u8)], ret: u8) -> R<V> {
        use Ext::*;
        let zero = V::C(0);
        Ok(match k {
            Nop | Assume => zero,
            Zero => {
                if name.contains("hashmap_random_keys") { V::A(Rc::new(vec![V::C(1), V::C(2)])) } else { zero }
            }
            Unknown => return Err(Stop::Engine(format!("call to unmodelled function {}", name))),
            Panic => {
                let loc = self.panic_loc(args);
                let n = demangle(name);
                return Err(Stop::Panic(format!("{} at {}", n, loc)));
            }
            Abort | Trap => return Err(Stop::Panic("abort".into())),
            // ---------------- harness
            SymIsEngine => V::C(1),
            SymInt => {
                let nm = self.read_str(&args[0], &args[1])?;
                let lo = self.conc_v(&args[2])? as i64;
                let hi = self.conc_v(&args[3])? as i64;
                let e = self.fresh(&nm, lo, hi)?;
                let e = self.pool.sext(e, 64);
                self.from_e(e)
            }
            SymF64 => {
                let nm = self.read_str(&args[0], &args[1])?;
                let lo = self.conc_v(&args[2])? as i64;
                let hi = self.conc_v(&args[3])? as i64;
                let kk = self.conc_v(&args[4])? as i64;
                let e = self.fresh(&nm, lo, hi)?;
                let f = self.pool.fls;
                let r = self.pool.fdy(e, kk as i16, f);
                self.from_e(r)
            }
            SymAssume => {
                let e = self.bool_arg(&args[0]);
                self.assume(e)?;
                zero
            }
            SymAssert => {
                let m = self.read_str(&args[1], &args[2])?;
                let e = self.bool_arg(&args[0]);
                self.assert(e, &m)?;
                zero
            }
            SymFail => {
                let m = self.read_str(&args[0], &args[1])?;
                return Err(Stop::Engine(format!("harness failure: {}", m)));
            }
            SymEnd => return Err(Stop::Done),
            SymCover => {
                let m = self.read_str(&args[0], &args[1])?;
                *self.covers.entry(m).or_insert(0) += 1;
                zero
            }
            SymTrace => {
                match &args[0] {
                    V::C(x) => self.st.trace.push((NOSYM, *x)),
                    v => {
                        let e = self.to_e(v, 64);
                        self.st.trace.push((e, 0))
                    }
                }
                zero
            }
            SymNote => {
                let m = self.read_str(&args[0], &args[1])?;
                Rc::make_mut(&mut self.st.notes).push(m);
                zero
            }
            SymConc => V::C(self.conc_v(&args[0])?),
            SymFeq => {
                let a = self.to_e(&args[0], FW);
                let b = self.to_e(&args[1], FW);
                let e = self.pool.fcmp(FC::Eq, a, b);
                let e = self.pool.zext(e, 8);
                self.from_e(e)
            }
            SymFle => {
                let a = self.to_e(&args[0], FW);
                let b = self.to_e(&args[1], FW);
                let e = self.pool.fcmp(FC::Le, a, b);
                let e = self.pool.zext(e, 8);
                self.from_e(e)
            }
            SymIte => {
                let c = self.bool_arg(&args[0]);
                let a = self.to_e(&args[1], FW);
                let b = self.to_e(&args[2], FW);
                let r = self.pool.ite(c, a, b);
                if matches!(self.pool.node(r), N::FIte(..)) {
                    if self.conc(c)? == 1 { self.from_e(a) } else { self.from_e(b) }
                } else {
                    self.from_e(r)
                }
            }
            // ---------------- memory
            Malloc => {
                let n = self.conc_v(&args[0])?;
                self.malloc(n)?
            }
            Calloc => {
                let n = self.conc_v(&args[0])?;
                let m = self.conc_v(&args[1])?;
                self.malloc(n.saturating_mul(m))?
            }
            PosixMemalign => {
                let p = self.conc_v(&args[0])?;
                let n = self.conc_v(&args[2])?;
                let v = self.malloc(n)?;
                self.store_bytes(p, 8, &v)?;
                zero
            }
            Realloc => {
                let p = self.conc_v(&args[0])?;
                let n = self.conc_v(&args[1])?;
                let nv = self.malloc(n)?;
                if p != 0 {
                    let id = p >> 32;
                    let old = match self.st.mem.get(id) {
                        Some(o) if p == mkaddr(id) => o.data.len() as u64,
                        _ => return Err(self.mem_err("realloc", p)),
                    };
                    if let V::C(np) = nv {
                        self.memcpy(np, p, old.min(n))?;
                    }
                    self.st.mem.put(id, None);
                }
                nv
            }
            Free => {
                let p = self.conc_v(&args[0])?;
                if p != 0 {
                    let id = p >> 32;
                    if p != mkaddr(id) || self.st.mem.get(id).is_none() {
                        return Err(self.mem_err("free", p));
                    }
                    self.st.mem.put(id, None);
                }
                zero
            }
            Memcpy => {
                let d = self.conc_v(&args[0])?;
                let s = self.conc_v(&args[1])?;
                let n = self.conc_v(&args[2])?;
                self.memcpy(d, s, n)?;
                V::C(d)
            }
            Memset => {
                let d = self.conc_v(&args[0])?;
                let n = self.conc_v(&args[2])?;
                let b = match &args[1] {
                    V::S(e) if self.pool.w(*e) > 8 => {
                        let x = self.pool.ext(*e, 0, 8);
                        self.from_e(x)
                    }
                    v => v.clone(),
                };
                self.memset(d, &b, n)?;
                V::C(d)
            }
            Bcmp | Memcmp => {
                let a = self.conc_v(&args[0])?;
                let b = self.conc_v(&args[1])?;
                let n = self.conc_v(&args[2])?;
                if n == 0 {
                    return Ok(V::C(0));
                }
                let sa = self.obj(a, n)?.0.sym.is_some();
                let sb = self.obj(b, n)?.0.sym.is_some();
                if !sa && !sb {
                    let (o, off) = self.obj(a, n)?;
                    let (p, q) = self.obj(b, n)?;
                    let r = o.data[off..off + n as usize].cmp(&p.data[q..q + n as usize]);
                    return Ok(V::C(match r {
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Less => 0xffff_ffff,
                        _ => 1,
                    }));
                }
                let w = if ret == 0 { 32 } else { ret };
                if k == Bcmp {
                    let mut eq = self.pool.tru;
                    for i in 0..n {
                        let x = self.load_byte(a + i)?;
                        let y = self.load_byte(b + i)?;
                        let x = self.to_e(&x, 8);
                        let y = self.to_e(&y, 8);
                        let e = self.pool.eq(x, y);
                        eq = self.pool.and(eq, e);
                    }
                    let ne = self.pool.not(eq);
                    let r = self.pool.zext(ne, w);
                    self.from_e(r)
                } else {
                    let mut r = self.pool.c(0, w);
                    for i in (0..n).rev() {
                        let x = self.load_byte(a + i)?;
                        let y = self.load_byte(b + i)?;
                        let x = self.to_e(&x, 8);
                        let y = self.to_e(&y, 8);
                        let e = self.pool.eq(x, y);
                        let l = self.pool.cmp(Cmp::Ult, x, y);
                        let m1 = self.pool.ci(-1, w);
                        let p1 = self.pool.c(1, w);
                        let d = self.pool.ite(l, m1, p1);
                        r = self.pool.ite(e, r, d);
                    }
                    self.from_e(r)
                }
            }
            Strlen => {
                let a = self.conc_v(&args[0])?;
                let mut i = 0;
                loop {
                    let b = self.load_byte(a + i)?;
                    if self.conc_v(&b)? == 0 {
                        break;
                    }
                    i += 1;
                }
                V::C(i)
            }
            Memchr => {
                let a = self.conc_v(&args[0])?;
                let c = self.conc_v(&args[1])? as u8;
                let n = self.conc_v(&args[2])?;
                let mut r = 0;
                for i in 0..n {
                    let b = self.load_byte(a + i)?;
                    if self.conc_v(&b)? as u8 == c {
                        r = a + i;
                        break;
                    }
                }
                V::C(r)
            }
            // ---------------- integer intrinsics
            UMax | UMin | SMax | SMin => {
                if let (V::A(x), V::A(y)) = (&args[0], &args[1]) {
                    // vectors of concrete bytes
                    let mut out = vec![];
                    for (p, q) in x.iter().zip(y.iter()) {
                        match (p, q) {
                            (V::C(a), V::C(b)) if k == UMax => out.push(V::C(*a.max(b))),
                            (V::C(a), V::C(b)) if k == UMin => out.push(V::C(*a.min(b))),
                            _ => return Err(Stop::Engine("vector min/max".into())),
                        }
                    }
                    return Ok(V::A(Rc::new(out)));
                }
                let (a, _) = self.arg_e(args, wd, 0);
                let (b, _) = self.arg_e(args, wd, 1);
                let c = match k {
                    UMax => self.pool.cmp(Cmp::Ult, b, a),
                    UMin => self.pool.cmp(Cmp::Ult, a, b),
                    SMax => self.pool.cmp(Cmp::Slt, b, a),
                    _ => self.pool.cmp(Cmp::Slt, a, b),
                };
                let r = self.pool.ite(c, a, b);
                self.from_e(r)
            }
            UAddSat | USubSat => {
                let (a, w) = self.arg_e(args, wd, 0);
                let (b, _) = self.arg_e(args, wd, 1);
                let r = if k == UAddSat {
                    let s = self.pool.bin(B::Add, a, b);
                    let c = self.pool.cmp(Cmp::Ult, s, a);
                    let m = self.pool.c(mask(w), w);
                    self.pool.ite(c, m, s)
                } else {
                    let s = self.pool.bin(B::Sub, a, b);
                    let c = self.pool.cmp(Cmp::Ult, a, b);
                    let z = self.pool.c(0, w);
                    self.pool.ite(c, z, s)
                };
                self.from_e(r)
            }
            SAddSat | SSubSat => {
                let (a, w) = self.arg_e(args, wd, 0);
                let (b, _) = self.arg_e(args, wd, 1);
                let ww = w + 1;
                let x = self.pool.sext(a, ww);
                let y = self.pool.sext(b, ww);
                let s = self.pool.bin(if k == SAddSat { B::Add } else { B::Sub }, x, y);
                let lo = self.pool.ci(-(1i128 << (w - 1)), ww);
                let hi = self.pool.ci((1i128 << (w - 1)) - 1, ww);
                let c1 = self.pool.cmp(Cmp::Slt, s, lo);
                let r = self.pool.ite(c1, lo, s);
                let c2 = self.pool.cmp(Cmp::Slt, hi, r);
                let r = self.pool.ite(c2, hi, r);
                let r = self.pool.ext(r, 0, w);
                self.from_e(r)
            }
            UAddO | USubO | UMulO | SAddO | SSubO | SMulO => {
                let (a, w) = self.arg_e(args, wd, 0);
                let (b, _) = self.arg_e(args, wd, 1);
                let signed = matches!(k, SAddO | SSubO | SMulO);
                let mul = matches!(k, UMulO | SMulO);
                let ww = if mul { w * 2 } else { w + 1 };
                let op = match k {
                    UAddO | SAddO => B::Add,
                    USubO | SSubO => B::Sub,
                    _ => B::Mul,
                };
                let r = self.pool.bin(op, a, b);
                let o = if k == USubO {
                    self.pool.cmp(Cmp::Ult, a, b)
                } else {
                    let (x, y) = if signed { (self.pool.sext(a, ww), self.pool.sext(b, ww)) } else { (self.pool.zext(a, ww), self.pool.zext(b, ww)) };
                    let wide = self.pool.bin(op, x, y);
                    let back = if signed { self.pool.sext(r, ww) } else { self.pool.zext(r, ww) };
                    self.pool.ne(wide, back)
                };
                let r = self.from_e(r);
                let o = self.from_e(o);
                V::A(Rc::new(vec![r, o]))
            }
            Ctlz | Cttz | Ctpop | Bswap | BitRev => {
                let w = wd[0].1;
                let x = match &args[0] {
                    V::C(x) => *x as u128,
                    V::W(x) => **x,
                    v => {
                        let e = self.to_e(v, w);
                        if k == Ctpop && w <= 16 {
                            let mut s = self.pool.c(0, w);
                            for i in 0..w {
                                let b = self.pool.ext(e, i, 1);
                                let b = self.pool.zext(b, w);
                                s = self.pool.bin(B::Add, s, b);
                            }
                            return Ok(self.from_e(s));
                        }
                        if k == Bswap {
                            let mut r = self.pool.ext(e, 0, 8);
                            for i in 1..w / 8 {
                                let b = self.pool.ext(e, i * 8, 8);
                                r = self.pool.concat(r, b);
                            }
                            return Ok(self.from_e(r));
                        }
                        if k == Ctlz || k == Cttz {
                            // ite chain over bits
                            let mut r = self.pool.c(w as u128, w);
                            for j in 0..w {
                                let i = if k == Cttz { w - 1 - j } else { j };
                                let b = self.pool.ext(e, i, 1);
                                let val = if k == Cttz { i } else { w - 1 - i };
                                let c = self.pool.c(val as u128, w);
                                r = self.pool.ite(b, c, r);
                            }
                            return Ok(self.from_e(r));
                        }
                        self.conc(e)?
                    }
                };
                let r: u128 = match k {
                    Ctlz => (x.leading_zeros() - (128 - w as u32)) as u128,
                    Cttz => (x.trailing_zeros().min(w as u32)) as u128,
                    Ctpop => x.count_ones() as u128,
                    Bswap => x.swap_bytes() >> (128 - w as u32),
                    _ => x.reverse_bits() >> (128 - w as u32),
                };
                if w > 64 { V::W(Rc::new(r)) } else { V::C(r as u64) }
            }
            Fshl | Fshr => {
                let (a, w) = self.arg_e(args, wd, 0);
                let (b, _) = self.arg_e(args, wd, 1);
                let (c, _) = self.arg_e(args, wd, 2);
                let s = self.conc(c)? as u8 % w;
                let r = if s == 0 {
                    if k == Fshl { a } else { b }
                } else {
                    let s = if k == Fshl { s } else { w - s };
                    // (a << s) | (b >> (w-s))
                    let hi = self.pool.ext(a, 0, w - s);
                    let lo = self.pool.ext(b, w - s, s);
                    self.pool.concat(hi, lo)
                };
                self.from_e(r)
            }
            Abs => {
                let (a, w) = self.arg_e(args, wd, 0);
                let z = self.pool.c(0, w);
                let n = self.pool.bin(B::Sub, z, a);
                let c = self.pool.cmp(Cmp::Slt, a, z);
                let r = self.pool.ite(c, n, a);
                self.from_e(r)
            }
            UCmp | SCmp => {
                let (a, _) = self.arg_e(args, wd, 0);
                let (b, _) = self.arg_e(args, wd, 1);
                let rw = if ret == 0 { 8 } else { ret };
                let op = if k == UCmp { Cmp::Ult } else { Cmp::Slt };
                let l = self.pool.cmp(op, a, b);
                let e = self.pool.eq(a, b);
                let m1 = self.pool.ci(-1, rw);
                let z = self.pool.c(0, rw);
                let p1 = self.pool.c(1, rw);
                let r = self.pool.ite(e, z, p1);
                let r = self.pool.ite(l, m1, r);
                self.from_e(r)
            }
            IsConstant => zero,
            Expect => args[0].clone(),
            ThreadLocal => args[0].clone(),
            LoadRelative => {
                let p = self.conc_v(&args[0])?;
                let o = self.conc_v(&args[1])?;
                let v = self.load_bytes(p.wrapping_add(o), 4)?;
                let v = self.conc_v(&v)?;
                V::C(p.wrapping_add(v as i32 as i64 as u64))
            }
            PtrMask => {
                let (a, w) = self.arg_e(args, wd, 0);
                let (b, _) = self.arg_e(args, wd, 1);
                let _ = w;
                let r = self.pool.bin(B::And, a, b);
                self.from_e(r)
            }
            VecReduceOr | VecReduceAnd | VecReduceAdd => match &args[0] {
                V::A(l) => {
                    let mut r: Option<u64> = None;
                    for x in l.iter() {
                        let x = match x {
                            V::C(x) => *x,
                            _ => return Err(Stop::Engine("vector reduce".into())),
                        };
                        r = Some(match (r, k) {
                            (None, _) => x,
                            (Some(a), VecReduceOr) => a | x,
                            (Some(a), VecReduceAnd) => a & x,
                            (Some(a), _) => {
                                let w = if ret == 0 || ret >= 64 { 64 } else { ret };
                                (a.wrapping_add(x)) & mask(w) as u64
                            }
                        });
                    }
                    V::C(r.unwrap_or(0))
                }
                _ => return Err(Stop::Engine("vector reduce".into())),
            },
            // ---------------- floating point
            FAbs => match &args[0] {
                V::C(x) => V::C(x & 0x7fff_ffff_ffff_ffff),
                v => self.funop(FU::Abs, v)?,
            },
            FSqrt => self.funop(FU::Sqrt, &args[0])?,
            FRound => self.funop(FU::Round, &args[0])?,
            F32Fn(i) => {
                let x = f32::from_bits(self.conc_v(&args[0])? as u32);
                V::C(match i {
                    0 => x.round().to_bits() as u64,
                    1 => x.floor().to_bits() as u64,
                    2 => x.ceil().to_bits() as u64,
                    3 => x.trunc().to_bits() as u64,
                    4 => x.sqrt().to_bits() as u64,
                    5 => x.abs().to_bits() as u64,
                    _ => if ret != 0 && ret < 64 { (x as u64).min((1u64 << ret) - 1) } else { x as u64 },
                })
            }
            FFloor => self.funop(FU::Floor, &args[0])?,
            FCeil => self.funop(FU::Ceil, &args[0])?,
            FTrunc => self.funop(FU::Trunc, &args[0])?,
            FRint => {
                let x = f64::from_bits(self.conc_f(&args[0])?);
                V::C(x.round_ties_even().to_bits())
            }
            FMinNum | FMaxNum => {
                let a = self.to_e(&args[0], FW);
                let b = self.to_e(&args[1], FW);
                let n1 = self.pool.fisnan(a);
                let n2 = self.pool.fisnan(b);
                if self.conc(n1)? == 1 {
                    return Ok(args[1].clone());
                }
                if self.conc(n2)? == 1 {
                    return Ok(args[0].clone());
                }
                let c = self.pool.fcmp(FC::Lt, a, b);
                let (x, y) = if k == FMinNum { (a, b) } else { (b, a) };
                let r = self.pool.fite(c, x, y);
                if matches!(self.pool.node(r), N::FIte(..)) {
                    let r = if self.conc(c)? == 1 { x } else { y };
                    self.from_e(r)
                } else {
                    self.from_e(r)
                }
            }
            FCopySign => {
                let a = self.funop(FU::Abs, &args[0])?;
                let b = self.to_e(&args[1], FW);
                let s = self.pool.fsign(b);
                let neg = self.funop(FU::Neg, &a)?;
                let x = self.to_e(&neg, FW);
                let y = self.to_e(&a, FW);
                let r = self.pool.fite(s, x, y);
                if matches!(self.pool.node(r), N::FIte(..)) {
                    let r = if self.conc(s)? == 1 { x } else { y };
                    self.from_e(r)
                } else {
                    self.from_e(r)
                }
            }
            FToSSat | FToUSat => {
                let w = if ret == 0 { 64 } else { ret };
                let e = self.to_e(&args[0], FW);
                let r = self.pool.ftoi(e, w, k == FToSSat);
                self.from_e(r)
            }
            FMulAdd => {
                let a = f64::from_bits(self.conc_f(&args[0])?);
                let b = f64::from_bits(self.conc_f(&args[1])?);
                let c = f64::from_bits(self.conc_f(&args[2])?);
                V::C(a.mul_add(b, c).to_bits())
            }
            Math1(i) => {
                let x = f64::from_bits(self.conc_f(&args[0])?);
                V::C(Self::math1(i, x).to_bits())
            }
            Math2(i) => {
                if i == 0 {
                    return self.atan2(&args[0], &args[1]);
                }
                let x = f64::from_bits(self.conc_f(&args[0])?);
                if i == 4 {
                    let n = self.conc_v(&args[1])? as i32;
                    return Ok(V::C(x.powi(n).to_bits()));
                }
                let y = f64::from_bits(self.conc_f(&args[1])?);
                V::C(
                    (match i {
                        1 => x.powf(y),
                        2 => x % y,
                        _ => x.hypot(y),
                    })
                    .to_bits(),
                )
            }
            GetEnv => zero,
            Sys(i) => return self.sys_call(i as usize, args),
        })
    }
    pub fn conc_f(&mut self, v: &V) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            v => {
                let e = self.to_e(v, FW);
                Ok(self.conc(e)? as u64)
            }
        }
    }
    fn bool_arg(&mut self, v: &V) -> E {
        match v {
            V::C(x) => self.pool.b(x & 1 == 1),
            V::S(e) => {
                let e = *e;
                self.pool.ext(e, 0, 1)
            }
            _ => self.pool.fls,
        }
    }
    /// atan2 depends only on the direction; the axis-aligned cases need no concrete operands
    fn atan2(&mut self, y: &V, x: &V) -> R<V> {
        if let (V::C(a), V::C(b)) = (y, x) {
            return Ok(V::C(f64::from_bits(*a).atan2(f64::from_bits(*b)).to_bits()));
        }
        let ye = self.to_e(y, FW);
        let xe = self.to_e(x, FW);
        let z = self.pool.fc(0.0);
        let y0 = self.pool.fcmp(FC::Eq, ye, z);
        if self.conc(y0)? == 1 {
            let sy = self.pool.fsign(ye);
            let sx = self.pool.fsign(xe);
            let sy = self.conc(sy)? == 1;
            let sx = self.conc(sx)? == 1;
            let yy = if sy { -0.0f64 } else { 0.0 };
            let xx = if sx { -1.0f64 } else { 1.0 };
            // atan2(+-0, x): 0 or pi by the sign of x, x = +-0 included
            return Ok(V::C(yy.atan2(xx).to_bits()));
        }
        let x0 = self.pool.fcmp(FC::Eq, xe, z);
        if self.conc(x0)? == 1 {
            let sy = self.pool.fsign(ye);
            let sy = self.conc(sy)? == 1;
            let yy = if sy { -1.0f64 } else { 1.0 };
            return Ok(V::C(yy.atan2(0.0).to_bits()));
        }
        let a = f64::from_bits(self.conc(ye)? as u64);
        let b = f64::from_bits(self.conc(xe)? as u64);
        Ok(V::C(a.atan2(b).to_bits()))
    }
}

impl Pool {
    pub fn var_named(&mut self, full: &str, lo: i64, hi: i64) -> E {
        for j in 0..self.vars.len() {
            if self.vars[j].name == full && self.vars[j].lo == lo && self.vars[j].hi == hi {
                return self.var(full, lo, hi, j);
            }
        }
        let n = self.vars.len();
        self.var(full, lo, hi, n)
    }
}
