//! The symbolic executor.
use crate::code::*;
use crate::expr::*;
use crate::ir::Ty;
use crate::z3::{Res, Z3};
use std::collections::HashMap;
use std::rc::Rc;

// ------------------------------------------------------------------ memory
#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<Vec<(E, u8)>>>,
    pub ro: bool,
}
pub const NOSYM: E = u32::MAX;
const PAGE: usize = 64;
pub type Page = [Option<Rc<Obj>>; PAGE];
const STACK_ID: u64 = 0x0800_0000;

#[derive(Clone)]
pub struct Mem {
    pub pages: Vec<Rc<Page>>,
    pub next: u64,
    pub stack: Vec<Option<Rc<Obj>>>,
}
fn empty_page() -> Page {
    [const { None }; PAGE]
}
impl Mem {
    pub fn get(&self, id: u64) -> Option<&Obj> {
        if id >= STACK_ID {
            return self.stack.get((id - STACK_ID) as usize)?.as_deref();
        }
        self.pages.get(id as usize / PAGE)?[id as usize % PAGE].as_deref()
    }
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        if id >= STACK_ID {
            return self.stack.get_mut((id - STACK_ID) as usize)?.as_mut().map(Rc::make_mut);
        }
        let p = self.pages.get_mut(id as usize / PAGE)?;
        Rc::make_mut(p)[id as usize % PAGE].as_mut().map(Rc::make_mut)
    }
    pub fn put(&mut self, id: u64, o: Option<Obj>) {
        let pi = id as usize / PAGE;
        while self.pages.len() <= pi {
            self.pages.push(Rc::new(empty_page()));
        }
        Rc::make_mut(&mut self.pages[pi])[id as usize % PAGE] = o.map(Rc::new);
    }
    pub fn alloc(&mut self, size: u64) -> u64 {
        let id = self.next;
        self.next += 1;
        self.put(id, Some(Obj { data: vec![0; size as usize], sym: None, ro: false }));
        mkaddr(id)
    }
}

// ------------------------------------------------------------------ state
#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub pc: u32,
    pub regs: Vec<V>,
    pub ret: u32,
    pub after: u32,
    pub obj: u64, // stack object id or 0
    pub tag: u32,
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub known: FMap<E, u128>,
    pub model: Vec<Option<i64>>,
    pub fixed: u128,
    pub inputs: Vec<(u32, E)>,
    pub counters: FMap<u64, u32>,
    pub trace: Vec<(E, u64)>,
    pub steps: u64,
    pub fs: crate::ext::Fs,
    pub notes: Rc<Vec<String>>,
}

pub enum Stop {
    Done,                 // path complete
    Infeasible,           // assumption failed
    Panic(String),
    Bug(String),          // memory error etc. (reported like a panic)
    Engine(String),       // cannot continue: engine limitation
    Hang(String),
    Unknown, // the solver gave up
}
pub type R<T> = Result<T, Stop>;

pub struct Cfg {
    pub max_steps: u64,
    pub out: String,
    pub jobs: i64,
    pub deadline: f64,
    pub seed: u64,
    pub samples: u64,
    pub max_viol: u64,
    pub trace_calls: bool,
    pub concrete: Option<Vec<(String, i64)>>,
}

#[repr(C)]
pub struct Shared {
    pub active: std::sync::atomic::AtomicI64,
    pub stop: std::sync::atomic::AtomicI64,
    pub paths: std::sync::atomic::AtomicU64,
    pub violations: std::sync::atomic::AtomicU64,
    pub samples: std::sync::atomic::AtomicU64,
    pub procs: std::sync::atomic::AtomicU64,
    pub errors: std::sync::atomic::AtomicU64,
    pub pending_lost: std::sync::atomic::AtomicU64,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub queries: u64,
    pub qcache: u64,
    pub qsat: u64,
    pub qunsat: u64,
    pub model_hits: u64,
    pub solver_ns: u64,
    pub max_query_ns: u64,
    pub asserts: u64,
    pub assert_sym: u64,
    pub assert_folded: u64,
    pub steps: u64,
    pub panics: u64,
    pub pending: u64,
    pub max_pc: u64,
    pub switches: u64,
    pub unknown: u64,
}

pub struct Exec {
    pub prog: Rc<Prog>,
    pub pool: Pool,
    pub z3: Z3,
    pub st: State,
    pub stack: Vec<State>,
    pub cache: FMap<Vec<E>, Option<Rc<Vec<(u32, i64)>>>>,
    pub stats: Stats,
    pub cfg: Rc<Cfg>,
    pub sh: *const Shared,
    pub memo: FMap<E, u128>,
    pub extk: Vec<crate::ext::Ext>,
    pub override_fn: Vec<Option<crate::ext::Ext>>,
    pub covers: HashMap<String, u64>,
    pub funcs_seen: Vec<bool>,
    pub fork_sites: HashMap<(u32, u32), u64>,
    pub asserts_by: HashMap<String, (u64, u64)>,
    pub children: u64,
    pub start: std::time::Instant,
    pub rng: u64,
    pub reported: std::collections::HashSet<String>,
    pub child: bool,
}

pub fn vw(v: &V) -> u128 {
    match v {
        V::C(x) => *x as u128,
        V::W(x) => **x,
        _ => 0,
    }
}

impl Exec {
    // -------------------------------------------------------------- values
    pub fn to_e(&mut self, v: &V, w: u8) -> E {
        match v {
            V::C(x) => {
                if w == FW {
                    self.pool.fc(f64::from_bits(*x))
                } else {
                    self.pool.c(*x as u128, w)
                }
            }
            V::W(x) => self.pool.c(**x, w),
            V::S(e) => {
                let ew = self.pool.w(*e);
                if ew == FW && w != FW {
                    self.pool.fbits(*e)
                } else if ew != FW && w == FW {
                    self.pool.ffrom_bits(*e)
                } else {
                    *e
                }
            }
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn from_e(&self, e: E) -> V {
        match self.pool.node(e) {
            N::C(v) => {
                if self.pool.w(e) > 64 { V::W(Rc::new(v)) } else { V::C(v as u64) }
            }
            N::FConst(b) => V::C(b),
            _ => V::S(e),
        }
    }

    // -------------------------------------------------------------- solver
    pub fn eval(&mut self, e: E) -> u128 {
        let mut memo = std::mem::take(&mut self.memo);
        let r = self.pool.eval(e, &self.st.model, &mut memo);
        self.memo = memo;
        r
    }
    fn var_fixed(&self, e: E) -> bool {
        let v = self.pool.vars_of(e);
        self.pool.vars.len() <= 128 && v & !self.st.fixed == 0
    }
    /// satisfiability of path condition + extra; on Sat returns a model for the slice
    pub fn query(&mut self, extra: E) -> R<Option<Rc<Vec<(u32, i64)>>>> {
        if let Some(v) = self.pool.is_c(extra) {
            if v == 0 {
                return Ok(None);
            }
        }
        // slice
        let mut mask = self.pool.vars_of(extra);
        let mut slice: Vec<E> = vec![];
        let mut rest: Vec<(E, u128)> = self.st.pc.iter().map(|&e| (e, self.pool.vars_of(e))).collect();
        loop {
            let mut changed = false;
            let mut i = 0;
            while i < rest.len() {
                if rest[i].1 & mask != 0 {
                    let m = rest[i].1;
                    if mask | m != mask {
                        mask |= m;
                        changed = true;
                    }
                    slice.push(rest[i].0);
                    rest.swap_remove(i);
                } else {
                    i += 1;
                }
            }
            if !changed {
                break;
            }
        }
        slice.push(extra);
        slice.sort_unstable();
        slice.dedup();
        self.stats.max_pc = self.stats.max_pc.max(slice.len() as u64);
        if let Some(r) = self.cache.get(&slice) {
            self.stats.qcache += 1;
            return Ok(r.clone());
        }
        let t = std::time::Instant::now();
        let r = self.z3.check(&self.pool, &slice);
        let dt = t.elapsed().as_nanos() as u64;
        if dt > 150_000_000 && std::env::var("SYMX_SLOW").is_ok() {
            eprintln!("slow query {} ms, {} conjuncts, in {}; last: {}", dt / 1000000, slice.len(), self.backtrace(), self.show(extra, 9));
        }
        self.stats.queries += 1;
        self.stats.solver_ns += dt;
        self.stats.max_query_ns = self.stats.max_query_ns.max(dt);
        let res = match r {
            Res::Sat(m) => {
                self.stats.qsat += 1;
                Some(Rc::new(m))
            }
            Res::Unsat => {
                self.stats.qunsat += 1;
                None
            }
            Res::Unknown(s) => {
                self.stats.unknown += 1;
                if std::env::var("SYMX_SLOW").is_ok() {
                    eprintln!("unknown ({}) {} ms, {} conjuncts, in {}; last: {}", s, dt / 1000000, slice.len(), self.backtrace(), self.show(extra, 9));
                }
                return Err(Stop::Unknown);
            }
        };
        if self.cache.len() > 2_000_000 {
            self.cache.clear();
        }
        self.cache.insert(slice, res.clone());
        Ok(res)
    }
    fn apply_model(model: &mut Vec<Option<i64>>, m: &[(u32, i64)]) {
        for &(v, x) in m {
            if model.len() <= v as usize {
                model.resize(v as usize + 1, None);
            }
            model[v as usize] = Some(x);
        }
    }
    /// add a constraint known to hold under the current model of `st`
    fn learn(pool: &mut Pool, st: &mut State, e: E, val: u128) {
        // e has value val on this path
        if st.known.insert(e, val).is_some() {
            return;
        }
        match pool.node(e) {
            N::Var(i) => {
                st.fixed |= 1u128 << (i % 128);
            }
            N::Bin(B::And, a, b) if val == 1 && pool.w(e) == 1 => {
                Self::learn(pool, st, a, 1);
                Self::learn(pool, st, b, 1);
            }
            N::Bin(B::Or, a, b) if val == 0 && pool.w(e) == 1 => {
                Self::learn(pool, st, a, 0);
                Self::learn(pool, st, b, 0);
            }
            N::Bin(B::Xor, a, b) if pool.w(e) == 1 && pool.is_c(b) == Some(1) => Self::learn(pool, st, a, 1 - val),
            N::Cmp(Cmp::Eq, a, b) if val == 1 => {
                if let Some(v) = pool.is_c(b) {
                    Self::learn(pool, st, a, v);
                }
            }
            N::ZExt(a) | N::SExt(a) => {
                let w = pool.w(a);
                Self::learn(pool, st, a, val & mask(w));
            }
            N::FBits(f) => {
                if let N::FDy(n, k, _) = pool.node(f) {
                    let x = f64::from_bits(val as u64);
                    let s = x * 2f64.powi(k as i32);
                    let w = pool.w(n);
                    let v = (s as i128 as u128) & mask(w);
                    Self::learn(pool, st, n, v);
                }
            }
            _ => {}
        }
    }
    fn constrain(&mut self, e: E, val: u128) {
        let c = {
            let w = self.pool.w(e);
            if w == 1 {
                if val == 1 { e } else { self.pool.not(e) }
            } else {
                let k = self.pool.c(val, w);
                self.pool.eq(e, k)
            }
        };
        if self.pool.is_c(c).is_none() {
            self.st.pc.push(c);
        }
        Self::learn(&mut self.pool, &mut self.st, e, val);
    }
    /// Concrete value of `e` on this path; forks over the other feasible values.
    /// Must be called before the current instruction has any side effect, since the
    /// forked state re-executes the instruction.
    pub fn conc(&mut self, e: E) -> R<u128> {
        if let Some(v) = self.pool.is_c(e) {
            return Ok(v);
        }
        if self.pool.w(e) == FW {
            let b = self.pool.fbits(e);
            return self.conc(b);
        }
        if let Some(&v) = self.st.known.get(&e) {
            return Ok(v);
        }
        let v = self.eval(e);
        if self.var_fixed(e) {
            self.st.known.insert(e, v);
            return Ok(v);
        }
        if self.pool.w(e) == 1 {
            let n = self.pool.not(e);
            if let Some(&v) = self.st.known.get(&n) {
                return Ok(1 - v);
            }
        }
        // other values?
        let other = if self.pool.w(e) == 1 {
            if v == 1 { self.pool.not(e) } else { e }
        } else {
            let k = self.pool.c(v, self.pool.w(e));
            self.pool.ne(e, k)
        };
        let q = match self.query(other) {
            // undecided: this path goes on with the value it has, the other side is not explored
            Err(Stop::Unknown) => {
                self.constrain(e, v);
                return Ok(v);
            }
            r => r?,
        };
        match q {
            None => {
                // implied: no new constraint needed
                self.st.known.insert(e, v);
                if self.pool.w(e) > 1 {
                    let ee = e;
                    Self::learn_implied(&mut self.pool, &mut self.st, ee, v);
                }
                Ok(v)
            }
            Some(m) => {
                self.stats.forks += 1;
                let fr = self.st.frames.last().unwrap();
                *self.fork_sites.entry((fr.f, fr.pc)).or_insert(0) += 1;
                let mut alt = self.st.clone();
                Self::apply_model(&mut alt.model, &m);
                alt.pc.push(other);
                if self.pool.w(e) == 1 {
                    Self::learn(&mut self.pool, &mut alt, e, 1 - v);
                } else {
                    let k = self.pool.c(v, self.pool.w(e));
                    let eq = self.pool.eq(e, k);
                    Self::learn(&mut self.pool, &mut alt, eq, 0);
                }
                self.stack.push(alt);
                self.constrain(e, v);
                self.donate();
                Ok(v)
            }
        }
    }
    fn learn_implied(pool: &mut Pool, st: &mut State, e: E, v: u128) {
        st.known.remove(&e);
        Self::learn(pool, st, e, v);
    }
    pub fn conc_v(&mut self, v: &V) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::S(e) => Ok(self.conc(*e)? as u64),
            V::W(x) => Ok(**x as u64),
            V::A(_) => Err(Stop::Engine("aggregate used as scalar".into())),
        }
    }
    pub fn conc_bool(&mut self, v: &V) -> R<bool> {
        Ok(self.conc_v(v)? & 1 == 1)
    }
    pub fn assume(&mut self, e: E) -> R<()> {
        if let Some(v) = self.pool.is_c(e) {
            return if v == 1 { Ok(()) } else { Err(Stop::Infeasible) };
        }
        if let Some(&v) = self.st.known.get(&e) {
            return if v == 1 { Ok(()) } else { Err(Stop::Infeasible) };
        }
        if self.eval(e) != 1 {
            let q = match self.query(e) {
                Err(Stop::Unknown) => return Err(Stop::Infeasible),
                r => r?,
            };
            match q {
                None => return Err(Stop::Infeasible),
                Some(m) => {
                    Self::apply_model(&mut self.st.model, &m);
                    self.memo.clear();
                }
            }
        }
        self.constrain(e, 1);
        Ok(())
    }
    pub fn assert(&mut self, e: E, msg: &str) -> R<()> {
        self.stats.asserts += 1;
        let ent = self.asserts_by.entry(msg.to_string()).or_insert((0, 0));
        ent.0 += 1;
        if let Some(v) = self.pool.is_c(e) {
            if v == 1 {
                self.stats.assert_folded += 1;
                return Ok(());
            }
            self.violation("assert", msg);
            return Err(Stop::Infeasible);
        }
        self.asserts_by.get_mut(msg).unwrap().1 += 1;
        self.stats.assert_sym += 1;
        let n = self.pool.not(e);
        if let Some(&v) = self.st.known.get(&e) {
            if v == 1 {
                return Ok(());
            }
        }
        let q = match self.query(n) {
            Err(Stop::Unknown) => return if self.eval(e) == 1 { self.assume(e) } else { Ok(()) },
            r => r?,
        };
        match q {
            None => Ok(()),
            Some(m) => {
                // counterexample
                let mut model = self.st.model.clone();
                Self::apply_model(&mut model, &m);
                let save = std::mem::replace(&mut self.st.model, model);
                self.memo.clear();
                self.violation("assert", msg);
                self.st.model = save;
                self.memo.clear();
                // continue where it holds
                self.assume(e)
            }
        }
    }
    pub fn input_values(&self) -> Vec<(String, i64)> {
        self.st
            .inputs
            .iter()
            .map(|(v, _)| {
                let vi = &self.pool.vars[*v as usize];
                let x = self.st.model.get(*v as usize).copied().flatten().unwrap_or(vi.lo);
                (vi.name.clone(), x)
            })
            .collect()
    }
    pub fn trace_values(&mut self) -> Vec<u64> {
        let t = self.st.trace.clone();
        t.into_iter().map(|(e, c)| if e == NOSYM { c } else { self.eval(e) as u64 }).collect()
    }
    pub fn violation(&mut self, kind: &str, msg: &str) {
        use std::sync::atomic::Ordering::*;
        let sh = unsafe { &*self.sh };
        // at most a few per message and process, to keep the event file small
        let mut n = 0;
        while self.reported.contains(&format!("{}#{}", msg, n)) {
            n += 1;
        }
        if n >= 3 {
            return;
        }
        self.reported.insert(format!("{}#{}", msg, n));
        let c = sh.violations.fetch_add(1, SeqCst) + 1;
        let inputs = self.input_values();
        let trace = self.trace_values();
        let ev = format!(
            "{{\"ev\":\"violation\",\"kind\":{},\"msg\":{},\"where\":{},\"inputs\":{},\"trace\":{:?},\"notes\":{}}}\n",
            js(kind),
            js(msg),
            js(&self.backtrace()),
            inputs_js(&inputs),
            trace,
            notes_js(&self.st.notes)
        );
        self.event(&ev);
        if c >= self.cfg.max_viol {
            sh.stop.store(2, SeqCst);
        }
    }
    pub fn event(&self, s: &str) {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&self.cfg.out).unwrap();
        f.write_all(s.as_bytes()).unwrap();
    }
    pub fn backtrace(&self) -> String {
        let mut v: Vec<String> = vec![];
        for f in self.st.frames.iter().rev().take(12) {
            v.push(demangle(&self.prog.funcs[f.f as usize].name));
        }
        v.join(" < ")
    }
    pub fn show(&self, e: E, d: u32) -> String {
        if d == 0 {
            return "..".into();
        }
        let p = &self.pool;
        match p.node(e) {
            N::C(v) => format!("{}", v),
            N::FConst(b) => format!("{}", f64::from_bits(b)),
            N::Var(i) => p.vars[i as usize].name.clone(),
            N::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(a, d - 1), self.show(b, d - 1)),
            N::Cmp(o, a, b) => format!("({:?} {} {})", o, self.show(a, d - 1), self.show(b, d - 1)),
            N::Ite(c, a, b) | N::FIte(c, a, b) => format!("(ite {} {} {})", self.show(c, d - 1), self.show(a, d - 1), self.show(b, d - 1)),
            N::FDy(n, k, _) => format!("dy({} 2^-{})", self.show(n, d - 1), k),
            N::FBin(o, a, b) => format!("(f{:?} {} {})", o, self.show(a, d - 1), self.show(b, d - 1)),
            N::FUn(o, a) => format!("(f{:?} {})", o, self.show(a, d - 1)),
            N::FCmp(o, a, b) => format!("(f{:?} {} {})", o, self.show(a, d - 1), self.show(b, d - 1)),
            N::ZExt(a) => format!("z{}({})", p.w(e), self.show(a, d - 1)),
            N::SExt(a) => format!("s{}({})", p.w(e), self.show(a, d - 1)),
            N::Ext(a, l) => format!("{}[{}+{}]", self.show(a, d - 1), l, p.w(e)),
            n => format!("{:?}", n),
        }
    }

    // -------------------------------------------------------------- memory access
    fn split(a: u64) -> (u64, i64) {
        (a >> 32, (a & 0xffff_ffff) as i64 - BASE as i64)
    }
    pub fn mem_err(&self, what: &str, a: u64) -> Stop {
        Stop::Bug(format!("invalid {} at address {:#x}", what, a))
    }
    #[inline]
    pub fn obj(&self, a: u64, n: u64) -> R<(&Obj, usize)> {
        let (id, off) = Self::split(a);
        match self.st.mem.get(id) {
            Some(o) if off >= 0 && off as u64 + n <= o.data.len() as u64 => Ok((o, off as usize)),
            _ => Err(self.mem_err("read", a)),
        }
    }
    #[inline]
    pub fn obj_mut(&mut self, a: u64, n: u64) -> R<(&mut Obj, usize)> {
        let (id, off) = Self::split(a);
        let ok = match self.st.mem.get(id) {
            Some(o) => off >= 0 && off as u64 + n <= o.data.len() as u64 && !o.ro,
            _ => false,
        };
        if !ok {
            return Err(self.mem_err("write", a));
        }
        Ok((self.st.mem.get_mut(id).unwrap(), off as usize))
    }
    pub fn load_bytes(&mut self, a: u64, n: usize) -> R<V> {
        let (o, off) = self.obj(a, n as u64)?;
        if let Some(s) = &o.sym {
            if s[off..off + n].iter().any(|x| x.0 != NOSYM) {
                let s: Vec<(E, u8)> = s[off..off + n].to_vec();
                let d: Vec<u8> = o.data[off..off + n].to_vec();
                return Ok(self.assemble(&s, &d));
            }
        }
        if n <= 8 {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            Ok(V::C(u64::from_le_bytes(b)))
        } else {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            Ok(V::W(Rc::new(u128::from_le_bytes(b))))
        }
    }
    fn assemble(&mut self, s: &[(E, u8)], d: &[u8]) -> V {
        let n = s.len();
        let mut parts: Vec<E> = vec![]; // low to high
        let mut i = 0;
        while i < n {
            let (e, k) = s[i];
            if e == NOSYM {
                let mut v = 0u128;
                let mut j = i;
                while j < n && s[j].0 == NOSYM {
                    v |= (d[j] as u128) << (8 * (j - i));
                    j += 1;
                }
                let c = self.pool.c(v, ((j - i) * 8) as u8);
                parts.push(c);
                i = j;
            } else {
                let mut j = i + 1;
                while j < n && s[j].0 == e && s[j].1 as usize == k as usize + (j - i) {
                    j += 1;
                }
                let x = self.pool.ext(e, k * 8, ((j - i) * 8) as u8);
                parts.push(x);
                i = j;
            }
        }
        let mut r = parts[0];
        for &p in &parts[1..] {
            r = self.pool.concat(p, r);
        }
        self.from_e(r)
    }
    /// bytes as (value, width-8 expression or NOSYM)
    pub fn load_byte(&mut self, a: u64) -> R<V> {
        self.load_bytes(a, 1)
    }
    pub fn store_bytes(&mut self, a: u64, n: usize, v: &V) -> R<()> {
        match v {
            V::C(x) => {
                let (o, off) = self.obj_mut(a, n as u64)?;
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    for x in &mut s[off..off + n] {
                        *x = (NOSYM, 0)
                    }
                }
            }
            V::W(x) => {
                let x = **x;
                let (o, off) = self.obj_mut(a, n as u64)?;
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    for x in &mut s[off..off + n] {
                        *x = (NOSYM, 0)
                    }
                }
            }
            V::S(e) => {
                let w = self.pool.w(*e);
                let e = if w == FW {
                    self.pool.fbits(*e)
                } else if (w as usize) < n * 8 {
                    self.pool.zext(*e, (n * 8) as u8)
                } else {
                    *e
                };
                let (o, off) = self.obj_mut(a, n as u64)?;
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| Box::new(vec![(NOSYM, 0); len]));
                for i in 0..n {
                    s[off + i] = (e, i as u8);
                }
            }
            V::A(_) => return Err(Stop::Engine("store aggregate as scalar".into())),
        }
        Ok(())
    }
    pub fn memcpy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.obj(s, n)?;
        let n = n as usize;
        let data = o.data[off..off + n].to_vec();
        let sym = match &o.sym {
            Some(v) => {
                let v = v[off..off + n].to_vec();
                if v.iter().all(|x| x.0 == NOSYM) { None } else { Some(v) }
            }
            None => None,
        };
        let (o, off) = self.obj_mut(d, n as u64)?;
        o.data[off..off + n].copy_from_slice(&data);
        match sym {
            None => {
                if let Some(v) = &mut o.sym {
                    for x in &mut v[off..off + n] {
                        *x = (NOSYM, 0)
                    }
                }
            }
            Some(sv) => {
                let len = o.data.len();
                let v = o.sym.get_or_insert_with(|| Box::new(vec![(NOSYM, 0); len]));
                v[off..off + n].copy_from_slice(&sv);
            }
        }
        Ok(())
    }
    pub fn memset(&mut self, d: u64, b: &V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        match b {
            V::C(x) => {
                let x = *x as u8;
                let (o, off) = self.obj_mut(d, n)?;
                for y in &mut o.data[off..off + n as usize] {
                    *y = x
                }
                if let Some(s) = &mut o.sym {
                    for x in &mut s[off..off + n as usize] {
                        *x = (NOSYM, 0)
                    }
                }
            }
            v => {
                for i in 0..n {
                    self.store_bytes(d + i, 1, v)?;
                }
            }
        }
        Ok(())
    }
    /// resolve a (possibly symbolic) address for an n-byte access
    fn addr(&mut self, v: &V) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            _ => self.conc_v(v),
        }
    }
    /// load through a symbolic address from constant tables without forking
    fn try_table(&mut self, p: E, n: usize) -> R<Option<V>> {
        let i = self.pool.info[p as usize];
        let (lo, hi) = (i.umin, i.umax);
        if hi - lo > 1 << 16 || hi > u64::MAX as u128 {
            return Ok(None);
        }
        let (id, _) = Self::split(lo as u64);
        let (id2, _) = Self::split(hi as u64);
        if id != id2 {
            return Ok(None);
        }
        let len = match self.st.mem.get(id) {
            Some(o) if o.ro && o.sym.is_none() => o.data.len() as u64,
            _ => return Ok(None),
        };
        // stride
        let stride = self.stride(p);
        let base = mkaddr(id);
        let mut groups: Vec<(u64, Vec<u64>)> = vec![];
        let mut a = lo as u64;
        let mut cnt = 0;
        let mut first = None;
        let mut last = 0;
        while a as u128 <= hi && a - base + n as u64 <= len {
            let v = match self.load_bytes(a, n)? {
                V::C(x) => x,
                _ => return Ok(None),
            };
            if first.is_none() {
                first = Some(a);
            }
            last = a;
            match groups.iter_mut().find(|g| g.0 == v) {
                Some(g) => g.1.push(a),
                None => groups.push((v, vec![a])),
            }
            cnt += 1;
            if cnt > 300 {
                return Ok(None);
            }
            a += stride;
        }
        let first = match first {
            Some(f) => f,
            None => return Ok(None),
        };
        // in-bounds obligation
        let l = self.pool.c(first as u128, 64);
        let h = self.pool.c(last as u128, 64);
        let c1 = self.pool.cmp(Cmp::Ule, l, p);
        let c2 = self.pool.cmp(Cmp::Ule, p, h);
        let ok = self.pool.and(c1, c2);
        if self.pool.is_c(ok) != Some(1) {
            let bad = self.pool.not(ok);
            if !matches!(self.query(bad), Ok(None)) {
                return Ok(None); // let the forking path report it
            }
        }
        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
        let w = (n * 8) as u8;
        let mut r = self.pool.c(groups[0].0 as u128, w);
        for (v, addrs) in &groups[1..] {
            // contiguous runs as ranges
            let mut cond = self.pool.fls;
            let mut i = 0;
            while i < addrs.len() {
                let mut j = i;
                while j + 1 < addrs.len() && addrs[j + 1] == addrs[j] + stride {
                    j += 1;
                }
                let x = self.pool.c(addrs[i] as u128, 64);
                let t = if i == j {
                    self.pool.eq(p, x)
                } else {
                    let y = self.pool.c(addrs[j] as u128, 64);
                    let a = self.pool.cmp(Cmp::Ule, x, p);
                    let b = self.pool.cmp(Cmp::Ule, p, y);
                    self.pool.and(a, b)
                };
                cond = self.pool.or(cond, t);
                i = j + 1;
            }
            let c = self.pool.c(*v as u128, w);
            r = self.pool.ite(cond, c, r);
        }
        Ok(Some(self.from_e(r)))
    }
    fn stride(&self, p: E) -> u64 {
        let mut e = p;
        let mut s = 1u64;
        loop {
            match self.pool.node(e) {
                N::Bin(B::Add, x, c) if self.pool.is_c(c).is_some() => e = x,
                N::Bin(B::Mul, x, c) => {
                    if let Some(k) = self.pool.is_c(c) {
                        s = s.saturating_mul(k as u64);
                        e = x;
                    } else {
                        return s.max(1);
                    }
                }
                N::Bin(B::Shl, x, c) => {
                    if let Some(k) = self.pool.is_c(c) {
                        s <<= k as u64;
                        e = x;
                    } else {
                        return s.max(1);
                    }
                }
                N::ZExt(x) | N::SExt(x) => e = x,
                _ => return s.max(1),
            }
        }
    }
    pub fn load_ty(&mut self, t: &Ty, a: u64) -> R<V> {
        match t {
            Ty::Int(w) => {
                let n = ((w + 7) / 8) as usize;
                if n > 16 {
                    return Err(Stop::Engine("wide load".into()));
                }
                let v = self.load_bytes(a, n)?;
                Ok(match v {
                    V::C(x) if *w > 64 => V::W(Rc::new(x as u128)),
                    V::C(x) if *w < 64 => V::C(x & mask(*w as u8) as u64),
                    V::S(e) if n * 8 > *w as usize => {
                        let x = self.pool.ext(e, 0, *w as u8);
                        self.from_e(x)
                    }
                    v => v,
                })
            }
            Ty::Ptr => self.load_bytes(a, 8),
            Ty::F64 => {
                let v = self.load_bytes(a, 8)?;
                Ok(match v {
                    V::S(e) => {
                        let f = self.pool.ffrom_bits(e);
                        self.from_e(f)
                    }
                    v => v,
                })
            }
            Ty::F32 => self.load_bytes(a, 4),
            Ty::Vec(n, e) => {
                let sz = e.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(e, a + sz * i as u64)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, e) => {
                let sz = e.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(e, a + sz * i)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (i, ft) in f.iter().enumerate() {
                    v.push(self.load_ty(ft, a + t.field_off(i))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Engine("load of unsupported type".into())),
        }
    }
    pub fn store_ty(&mut self, t: &Ty, a: u64, v: &V) -> R<()> {
        match (t, v) {
            (Ty::Vec(n, e), V::A(x)) if **e != Ty::Int(1) => {
                for i in 0..*n as usize {
                    self.store_ty(e, a + e.size() * i as u64, &x[i])?;
                }
                Ok(())
            }
            (Ty::Arr(n, e), V::A(x)) => {
                for i in 0..*n as usize {
                    self.store_ty(e, a + e.size() * i as u64, &x[i])?;
                }
                Ok(())
            }
            (Ty::Struct(f, _), V::A(x)) => {
                for i in 0..f.len() {
                    self.store_ty(&f[i], a + t.field_off(i), &x[i])?;
                }
                Ok(())
            }
            (Ty::Int(w), v) => {
                let n = ((w + 7) / 8) as usize;
                self.store_bytes(a, n, v)
            }
            (Ty::Ptr, v) | (Ty::F64, v) => self.store_bytes(a, 8, v),
            (Ty::F32, v) => self.store_bytes(a, 4, v),
            _ => Err(Stop::Engine("store of unsupported type".into())),
        }
    }

    // -------------------------------------------------------------- arithmetic
    fn bin(&mut self, op: BK, w: u8, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
            let sx = |v: u64| -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } };
            let r = match op {
                BK::Add => x.wrapping_add(y),
                BK::Sub => x.wrapping_sub(y),
                BK::Mul => x.wrapping_mul(y),
                BK::And => x & y,
                BK::Or => x | y,
                BK::Xor => x ^ y,
                BK::Shl => {
                    if y >= w as u64 { 0 } else { x << y }
                }
                BK::LShr => {
                    if y >= w as u64 { 0 } else { x >> y }
                }
                BK::AShr => (sx(x) >> y.min(63)) as u64,
                BK::UDiv | BK::URem | BK::SDiv | BK::SRem => {
                    if y == 0 {
                        return Err(Stop::Bug("division by zero".into()));
                    }
                    match op {
                        BK::UDiv => x / y,
                        BK::URem => x % y,
                        BK::SDiv => sx(x).wrapping_div(sx(y)) as u64,
                        _ => sx(x).wrapping_rem(sx(y)) as u64,
                    }
                }
                _ => {
                    let (f, g) = (f64::from_bits(x), f64::from_bits(y));
                    let r = match op {
                        BK::FAdd => f + g,
                        BK::FSub => f - g,
                        BK::FMul => f * g,
                        BK::FDiv => f / g,
                        _ => f % g,
                    };
                    return Ok(V::C(r.to_bits()));
                }
            };
            return Ok(V::C(r & m));
        }
        if w == FW {
            let x = self.to_e(a, FW);
            let y = self.to_e(b, FW);
            let o = match op {
                BK::FAdd => FB::Add,
                BK::FSub => FB::Sub,
                BK::FMul => FB::Mul,
                BK::FDiv => FB::Div,
                _ => {
                    let p = self.conc(x)? as u64;
                    let q = self.conc(y)? as u64;
                    return Ok(V::C((f64::from_bits(p) % f64::from_bits(q)).to_bits()));
                }
            };
            return self.fop(o, x, y);
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let o = match op {
            BK::Add => B::Add,
            BK::Sub => B::Sub,
            BK::Mul => B::Mul,
            BK::And => B::And,
            BK::Or => B::Or,
            BK::Xor => B::Xor,
            BK::Shl => B::Shl,
            BK::LShr => B::LShr,
            BK::AShr => B::AShr,
            BK::UDiv => B::UDiv,
            BK::SDiv => B::SDiv,
            BK::URem => B::URem,
            _ => B::SRem,
        };
        if matches!(o, B::UDiv | B::SDiv | B::URem | B::SRem) && self.pool.is_c(y).is_none() {
            let z = self.pool.c(0, w);
            let e = self.pool.eq(y, z);
            if self.conc(e)? == 1 {
                return Err(Stop::Bug("division by zero".into()));
            }
        }
        let r = self.pool.bin(o, x, y);
        Ok(self.from_e(r))
    }
    pub fn fop(&mut self, o: FB, x: E, y: E) -> R<V> {
        if let Some(r) = self.pool.fbin_exact(o, x, y) {
            return Ok(self.from_e(r));
        }
        // not exact in the dyadic form: make the operands concrete (exhaustively, by forking),
        // cheapest first
        if o == FB::Div && self.pool.is_c(y).is_none() {
            let v = self.conc(y)?;
            let yc = self.pool.fc(f64::from_bits(v as u64));
            if let Some(r) = self.pool.fbin_exact(o, x, yc) {
                return Ok(self.from_e(r));
            }
        }
        let p = f64::from_bits(self.conc(x)? as u64);
        let q = f64::from_bits(self.conc(y)? as u64);
        let r = match o {
            FB::Add => p + q,
            FB::Sub => p - q,
            FB::Mul => p * q,
            FB::Div => p / q,
        };
        Ok(V::C(r.to_bits()))
    }
    pub fn funop(&mut self, o: FU, a: &V) -> R<V> {
        let x = self.to_e(a, FW);
        let r = self.pool.fun(o, x);
        if matches!(self.pool.node(r), N::FUn(..)) {
            // sqrt of a non-square
            let v = f64::from_bits(self.conc(x)? as u64);
            let e = self.pool.fc(v);
            let r = self.pool.fun(o, e);
            return Ok(self.from_e(r));
        }
        Ok(self.from_e(r))
    }
    fn icmp(&mut self, p: Pred, w: u8, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let sx = |v: u64| -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } };
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx(x) < sx(y),
                Pred::Sle => sx(x) <= sx(y),
                Pred::Sgt => sx(x) > sx(y),
                Pred::Sge => sx(x) >= sx(y),
            };
            return V::C(r as u64);
        }
        let mut x = self.to_e(a, w);
        let mut y = self.to_e(b, w);
        let (op, swap, neg) = p.sym();
        if swap {
            std::mem::swap(&mut x, &mut y);
        }
        let mut r = self.pool.cmp(op, x, y);
        if neg {
            r = self.pool.not(r);
        }
        self.from_e(r)
    }
    fn fcmp(&mut self, p: FPred, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (f, g) = (f64::from_bits(*x), f64::from_bits(*y));
            let un = f.is_nan() || g.is_nan();
            let r = match p {
                FPred::False => false,
                FPred::True => true,
                FPred::Ord => !un,
                FPred::Uno => un,
                FPred::Cmp { op, swap, uno, neg } => {
                    if un {
                        uno
                    } else {
                        let (f, g) = if swap { (g, f) } else { (f, g) };
                        let r = match op {
                            FC::Eq => f == g,
                            FC::Lt => f < g,
                            FC::Le => f <= g,
                        };
                        r != neg
                    }
                }
            };
            return V::C(r as u64);
        }
        let x = self.to_e(a, FW);
        let y = self.to_e(b, FW);
        let n1 = self.pool.fisnan(x);
        let n2 = self.pool.fisnan(y);
        let un = self.pool.or(n1, n2);
        let r = match p {
            FPred::False => self.pool.fls,
            FPred::True => self.pool.tru,
            FPred::Ord => self.pool.not(un),
            FPred::Uno => un,
            FPred::Cmp { op, swap, uno, neg } => {
                let (f, g) = if swap { (y, x) } else { (x, y) };
                let mut r = self.pool.fcmp(op, f, g);
                if neg {
                    r = self.pool.not(r);
                }
                let nun = self.pool.not(un);
                if uno { self.pool.or(un, r) } else { self.pool.and(nun, r) }
            }
        };
        self.from_e(r)
    }
    fn cast(&mut self, k: CK, from: u8, to: u8, a: &V) -> R<V> {
        Ok(match (k, a) {
            (CK::ZExt, V::C(x)) => {
                if to > 64 { V::W(Rc::new(*x as u128)) } else { V::C(*x) }
            }
            (CK::ZExt, V::W(x)) => V::W(x.clone()),
            (CK::SExt, V::C(x)) => {
                let s = sext128(*x as u128, from);
                if to > 64 { V::W(Rc::new(s as u128 & mask(to))) } else { V::C((s as u128 & mask(to)) as u64) }
            }
            (CK::Trunc, V::C(x)) => V::C(*x & mask(to) as u64),
            (CK::Trunc, V::W(x)) => {
                let r = **x & mask(to);
                if to > 64 { V::W(Rc::new(r)) } else { V::C(r as u64) }
            }
            (CK::Bit, _) => a.clone(),
            (CK::FToBits, V::C(_)) | (CK::BitsToF, V::C(_)) => a.clone(),
            (CK::UToF, V::C(x)) => V::C((*x as f64).to_bits()),
            (CK::UToF, V::W(x)) => V::C((**x as f64).to_bits()),
            (CK::SToF, V::C(x)) => V::C((sext128(*x as u128, from) as f64).to_bits()),
            (CK::SToF, V::W(x)) => V::C((sext128(**x, from) as f64).to_bits()),
            (CK::FToU, V::C(_)) | (CK::FToU, V::S(_)) => {
                let e = self.to_e(a, FW);
                let r = self.pool.ftoi(e, to, false);
                self.from_e(r)
            }
            (CK::FToS, V::C(_)) | (CK::FToS, V::S(_)) => {
                let e = self.to_e(a, FW);
                let r = self.pool.ftoi(e, to, true);
                self.from_e(r)
            }
            (_, V::S(e)) => {
                let e = *e;
                let r = match k {
                    CK::ZExt => self.pool.zext(e, to),
                    CK::SExt => self.pool.sext(e, to),
                    CK::Trunc => self.pool.ext(e, 0, to),
                    CK::FToBits => self.pool.fbits(e),
                    CK::BitsToF => self.pool.ffrom_bits(e),
                    CK::UToF => self.pool.itof(e, false),
                    _ => self.pool.itof(e, true),
                };
                self.from_e(r)
            }
            _ => return Err(Stop::Engine(format!("cast {:?}", k))),
        })
    }

    // -------------------------------------------------------------- control
    #[inline]
    fn rd(&self, f: &Frame, o: O) -> V {
        match o {
            O::R(r) => f.regs[r as usize].clone(),
            O::K(k) => self.prog.funcs[f.f as usize].consts[k as usize].clone(),
        }
    }
    pub fn push_frame(&mut self, f: u32, args: Vec<V>, ret: u32, after: u32) -> R<()> {
        if self.st.frames.len() > 4000 {
            return Err(Stop::Bug("stack overflow (more than 4000 frames)".into()));
        }
        let cf = &self.prog.funcs[f as usize];
        self.funcs_seen[f as usize] = true;
        let mut regs = vec![V::C(0); cf.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < cf.params.len() {
                regs[cf.params[i] as usize] = a;
            }
        }
        let mut obj = 0;
        if cf.frame > 0 {
            let d = self.st.mem.stack.len() as u64;
            obj = STACK_ID + d;
            let o = Obj { data: vec![0; cf.frame as usize], sym: None, ro: false };
            self.st.mem.stack.push(Some(Rc::new(o)));
        }
        self.st.frames.push(Rc::new(Frame { f, pc: 0, regs, ret, after, obj, tag: 0 }));
        Ok(())
    }
    fn take_edge(&mut self, fr: &mut Frame, e: u32) {
        let prog = self.prog.clone();
        let cf = &prog.funcs[fr.f as usize];
        let ed = &cf.edges[e as usize];
        match ed.moves.len() {
            0 => {}
            1 => {
                let (d, o) = ed.moves[0];
                fr.regs[d as usize] = self.rd(fr, o);
            }
            _ => {
                let vals: Vec<V> = ed.moves.iter().map(|(_, o)| self.rd(fr, *o)).collect();
                for ((d, _), v) in ed.moves.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.pc = ed.target;
    }
    /// Run the current state until it stops.
    pub fn run_path(&mut self) -> Stop {
        loop {
            // detach the top frame for fast access
            match self.run_frame() {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }
    fn run_frame(&mut self) -> R<()> {
        let prog = self.prog.clone();
        let mut top = match self.st.frames.pop() {
            Some(t) => t,
            None => return Err(Stop::Done),
        };
        let r = {
            let fr = Rc::make_mut(&mut top);
            self.frame_loop(&prog, fr)
        };
        match r {
            Ok(FrameEnd::Return(v)) => {
                if top.obj != 0 {
                    self.st.mem.stack.pop();
                }
                if self.st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let caller = Rc::make_mut(self.st.frames.last_mut().unwrap());
                caller.regs[top.ret as usize] = v;
                if top.after != u32::MAX {
                    let mut c = std::mem::replace(caller, Frame { f: 0, pc: 0, regs: vec![], ret: 0, after: 0, obj: 0, tag: 0 });
                    self.take_edge(&mut c, top.after);
                    *Rc::make_mut(self.st.frames.last_mut().unwrap()) = c;
                } else {
                    caller.pc += 1;
                }
                Ok(())
            }
            Ok(FrameEnd::Call(f, args, d, after)) => {
                self.st.frames.push(top);
                self.push_frame(f, args, d, after)
            }
            Ok(FrameEnd::Yield) => {
                self.st.frames.push(top);
                Ok(())
            }
            Err(s) => {
                self.st.frames.push(top);
                Err(s)
            }
        }
    }
    fn frame_loop(&mut self, prog: &Prog, fr: &mut Frame) -> R<FrameEnd> {
        let cf = &prog.funcs[fr.f as usize];
        // `conc` clones self.st, in which the current frame is missing: instructions that may
        // fork put the frame back first.
        macro_rules! with_frame {
            ($body:expr) => {{
                let placeholder = Frame { f: fr.f, pc: fr.pc, regs: vec![], ret: fr.ret, after: fr.after, obj: fr.obj, tag: fr.tag };
                let real = std::mem::replace(fr, placeholder);
                self.st.frames.push(Rc::new(real));
                let r = $body;
                let back = self.st.frames.pop().unwrap();
                *fr = match Rc::try_unwrap(back) {
                    Ok(f) => f,
                    Err(rc) => (*rc).clone(),
                };
                r?
            }};
        }
        macro_rules! concrete {
            ($v:expr) => {{
                let v = $v;
                match v {
                    V::C(x) => x,
                    v => with_frame!(self.conc_v(&v)),
                }
            }};
        }
        loop {
            self.st.steps += 1;
            let ci = &cf.code[fr.pc as usize];
            if self.cfg.trace_calls {
                eprintln!("{} {} {:?}", demangle(&cf.name), fr.pc, ci);
            }
            match ci {
                CI::Bin { op, w, d, a, b } => {
                    let x = self.rd(fr, *a);
                    let y = self.rd(fr, *b);
                    let r = match (&x, &y) {
                        (V::C(_), V::C(_)) => self.bin(*op, *w, &x, &y)?,
                        _ => {
                            if *w == FW || matches!(op, BK::UDiv | BK::SDiv | BK::URem | BK::SRem) {
                                with_frame!(self.bin(*op, *w, &x, &y))
                            } else {
                                self.bin(*op, *w, &x, &y)?
                            }
                        }
                    };
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                CI::ICmp { p, w, d, a, b } => {
                    let x = self.rd(fr, *a);
                    let y = self.rd(fr, *b);
                    fr.regs[*d as usize] = self.icmp(*p, *w, &x, &y);
                    fr.pc += 1;
                }
                CI::FCmp { p, d, a, b } => {
                    let x = self.rd(fr, *a);
                    let y = self.rd(fr, *b);
                    fr.regs[*d as usize] = self.fcmp(*p, &x, &y);
                    fr.pc += 1;
                }
                CI::LoadI { bytes, w, d, p } => {
                    let p = self.rd(fr, *p);
                    let v = match &p {
                        V::C(a) => self.load_bytes(*a, *bytes as usize)?,
                        V::S(e) => {
                            let e = *e;
                            match self.try_table(e, *bytes as usize)? {
                                Some(v) => v,
                                None => {
                                    let a = with_frame!(self.addr(&p));
                                    self.load_bytes(a, *bytes as usize)?
                                }
                            }
                        }
                        _ => return Err(Stop::Engine("bad address".into())),
                    };
                    let v = if (*w as u32) < *bytes as u32 * 8 {
                        match v {
                            V::C(x) => V::C(x & mask(*w) as u64),
                            V::S(e) => {
                                let x = self.pool.ext(e, 0, *w);
                                self.from_e(x)
                            }
                            v => v,
                        }
                    } else {
                        v
                    };
                    fr.regs[*d as usize] = v;
                    fr.pc += 1;
                }
                CI::StoreI { bytes, w: _, v, p } => {
                    let p = concrete!(self.rd(fr, *p));
                    let v = self.rd(fr, *v);
                    self.store_bytes(p, *bytes as usize, &v)?;
                    fr.pc += 1;
                }
                CI::LoadF { d, p } => {
                    let p = concrete!(self.rd(fr, *p));
                    let v = self.load_ty(&Ty::F64, p)?;
                    fr.regs[*d as usize] = v;
                    fr.pc += 1;
                }
                CI::StoreF { v, p } => {
                    let p = concrete!(self.rd(fr, *p));
                    let v = self.rd(fr, *v);
                    self.store_bytes(p, 8, &v)?;
                    fr.pc += 1;
                }
                CI::Gep { d, base, off } => {
                    let b = self.rd(fr, *base);
                    fr.regs[*d as usize] = match b {
                        V::C(x) => V::C(x.wrapping_add(*off as u64)),
                        v => {
                            let o = V::C(*off as u64);
                            self.bin(BK::Add, 64, &v, &o)?
                        }
                    };
                    fr.pc += 1;
                }
                CI::GepI { d, base, off, idx } => {
                    let mut cur = self.rd(fr, *base);
                    let mut extra = *off as u64;
                    for (o, s, w) in idx.iter() {
                        let v = self.rd(fr, *o);
                        match (&v, &cur) {
                            (V::C(x), _) => {
                                let i = if *w < 64 { sext128(*x as u128, *w) as i64 } else { *x as i64 };
                                extra = extra.wrapping_add((i as u64).wrapping_mul(*s as u64));
                            }
                            _ => {
                                let e = self.to_e(&v, *w);
                                let e = if *w < 64 { self.pool.sext(e, 64) } else { e };
                                let k = self.pool.c(*s as u64 as u128, 64);
                                let m = self.pool.bin(B::Mul, e, k);
                                let m = self.from_e(m);
                                cur = self.bin(BK::Add, 64, &cur, &m)?;
                            }
                        }
                    }
                    let r = match cur {
                        V::C(x) => V::C(x.wrapping_add(extra)),
                        v => self.bin(BK::Add, 64, &v, &V::C(extra))?,
                    };
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                CI::Cast { k, from, to, d, a } => {
                    let x = self.rd(fr, *a);
                    let r = self.cast(*k, *from, *to, &x)?;
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                CI::Sel { float, ptr, scalar, d, c, a, b, w } => {
                    let c = self.rd(fr, *c);
                    let r = match &c {
                        V::C(x) => {
                            if x & 1 == 1 { self.rd(fr, *a) } else { self.rd(fr, *b) }
                        }
                        _ => {
                            let x = self.rd(fr, *a);
                            let y = self.rd(fr, *b);
                            let ce = self.to_e(&c, 1);
                            if let Some(&k) = self.st.known.get(&ce) {
                                if k == 1 { x } else { y }
                            } else {
                                let mut res = None;
                                if *scalar && !*ptr {
                                    let xe = self.to_e(&x, *w);
                                    let ye = self.to_e(&y, *w);
                                    let r = self.pool.ite(ce, xe, ye);
                                    if !*float || matches!(self.pool.node(r), N::FDy(..) | N::FConst(_)) {
                                        res = Some(self.from_e(r));
                                    }
                                } else if let (V::C(p), V::C(q)) = (&x, &y) {
                                    if p == q {
                                        res = Some(x.clone());
                                    }
                                }
                                match res {
                                    Some(r) => r,
                                    None => {
                                        let v = with_frame!(self.conc(ce));
                                        if v == 1 { x } else { y }
                                    }
                                }
                            }
                        }
                    };
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                CI::Br(e) => {
                    if self.st.steps > self.cfg.max_steps {
                        return Err(Stop::Hang(format!("more than {} steps", self.cfg.max_steps)));
                    }
                    self.take_edge(fr, *e);
                }
                CI::CBr { c, t, f } => {
                    if self.st.steps > self.cfg.max_steps {
                        return Err(Stop::Hang(format!("more than {} steps", self.cfg.max_steps)));
                    }
                    let c = self.rd(fr, *c);
                    let v = match c {
                        V::C(x) => x & 1,
                        c => with_frame!(self.conc_v(&c)) & 1,
                    };
                    let e = if v == 1 { *t } else { *f };
                    self.take_edge(fr, e);
                }
                CI::Switch { v, w, def, cases, map } => {
                    let v = self.rd(fr, *v);
                    let e = match &v {
                        V::C(x) => map.get(x).copied().unwrap_or(*def),
                        V::S(s) => {
                            let s = *s;
                            let w = *w;
                            self.stats.switches += 1;
                            // decide which target group is taken
                            let known = self.st.known.get(&s).copied();
                            let cur = match known {
                                Some(k) => k as u64,
                                None => self.eval(s) as u64,
                            };
                            let tgt = map.get(&cur).copied().unwrap_or(*def);
                            if known.is_none() {
                                let cond = if tgt == *def {
                                    let mut c = self.pool.tru;
                                    for (k, e) in cases.iter() {
                                        if e != def {
                                            let kc = self.pool.c(*k as u128, w);
                                            let n = self.pool.ne(s, kc);
                                            c = self.pool.and(c, n);
                                        }
                                    }
                                    c
                                } else {
                                    let mut c = self.pool.fls;
                                    for (k, e) in cases.iter() {
                                        if *e == tgt {
                                            let kc = self.pool.c(*k as u128, w);
                                            let n = self.pool.eq(s, kc);
                                            c = self.pool.or(c, n);
                                        }
                                    }
                                    c
                                };
                                let r = with_frame!(self.conc(cond));
                                debug_assert!(r == 1);
                            }
                            tgt
                        }
                        _ => return Err(Stop::Engine("switch on aggregate".into())),
                    };
                    self.take_edge(fr, e);
                }
                CI::Call { d, callee, args, after, ret } => {
                    let target = match callee {
                        CalleeK::F(i) => Ok(*i),
                        CalleeK::Ext(i) => Err(*i),
                        CalleeK::Asm => {
                            // optimisation barriers (black_box) and `pause` only
                            fr.pc += 1;
                            continue;
                        }
                        CalleeK::Ptr(o) => {
                            let a = concrete!(self.rd(fr, *o));
                            let b = mkaddr(FN_OBJ);
                            if a >= b && a < b + (1 << 31) {
                                let k = (a - b) / 16;
                                if (a - b) % 16 == 0 && (k as usize) < prog.funcs.len() {
                                    Ok(k as u32)
                                } else if (a - b) % 16 == 8 && (k as usize) < prog.exts.len() {
                                    Err(k as u32)
                                } else {
                                    return Err(self.mem_err("call", a));
                                }
                            } else {
                                return Err(self.mem_err("call", a));
                            }
                        }
                    };
                    let mut av: Vec<V> = Vec::with_capacity(args.len());
                    for (o, _) in args.iter() {
                        av.push(self.rd(fr, *o));
                    }
                    let ext = match target {
                        Ok(i) => match self.override_fn[i as usize] {
                            Some(x) => Some(x),
                            None => {
                                return Ok(FrameEnd::Call(i, av, *d, *after));
                            }
                        },
                        Err(i) => Some(self.extk[i as usize]),
                    };
                    let k = ext.unwrap();
                    let name: &str = match target {
                        Ok(i) => &prog.funcs[i as usize].name,
                        Err(i) => &prog.exts[i as usize],
                    };
                    let r = with_frame!(self.ext_call(k, name, &av, args, *ret));
                    fr.regs[*d as usize] = r;
                    if *after != u32::MAX {
                        self.take_edge(fr, *after);
                    } else {
                        fr.pc += 1;
                    }
                }
                CI::Ret(v) => {
                    let v = match v {
                        Some(o) => self.rd(fr, *o),
                        None => V::C(0),
                    };
                    return Ok(FrameEnd::Return(v));
                }
                CI::Unreachable => return Err(Stop::Bug("unreachable instruction reached".into())),
                CI::Alloca { d, off } => {
                    fr.regs[*d as usize] = V::C(mkaddr(fr.obj) + off);
                    fr.pc += 1;
                }
                CI::Mov { d, a } => {
                    fr.regs[*d as usize] = self.rd(fr, *a);
                    fr.pc += 1;
                }
                CI::Nop => fr.pc += 1,
                CI::ExtractV { d, a, idx } => {
                    let mut v = self.rd(fr, *a);
                    for i in idx.iter() {
                        v = match &v {
                            V::A(x) => x[*i as usize].clone(),
                            _ => return Err(Stop::Engine("extractvalue".into())),
                        };
                    }
                    fr.regs[*d as usize] = v;
                    fr.pc += 1;
                }
                CI::InsertV { d, a, v, idx, t } => {
                    let agg = self.rd(fr, *a);
                    let x = self.rd(fr, *v);
                    fr.regs[*d as usize] = insertv(agg, t, idx, x);
                    fr.pc += 1;
                }
                CI::LoadT { t, d, p } => {
                    let p = concrete!(self.rd(fr, *p));
                    let v = self.load_ty(t, p)?;
                    fr.regs[*d as usize] = v;
                    fr.pc += 1;
                }
                CI::StoreT { t, v, p } => {
                    let p = concrete!(self.rd(fr, *p));
                    let v = self.rd(fr, *v);
                    self.store_ty(t, p, &v)?;
                    fr.pc += 1;
                }
                CI::FNeg { d, a } => {
                    let x = self.rd(fr, *a);
                    fr.regs[*d as usize] = match x {
                        V::C(b) => V::C(b ^ (1 << 63)),
                        v => self.funop(FU::Neg, &v)?,
                    };
                    fr.pc += 1;
                }
                CI::F32 { k, d, a, b } => {
                    let x = self.rd(fr, *a);
                    let y = self.rd(fr, *b);
                    let x = with_frame!(self.conc_v(&x));
                    let y = with_frame!(self.conc_v(&y));
                    let f = |v: u64| f32::from_bits(v as u32);
                    let r = |v: f32| v.to_bits() as u64;
                    let sx = |v: u64, w: u8| if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) };
                    let m = |v: i64, w: u8| if w >= 64 { v as u64 } else { v as u64 & ((1u64 << w) - 1) };
                    fr.regs[*d as usize] = V::C(match *k {
                        F32K::Bin(BK::FAdd) => r(f(x) + f(y)),
                        F32K::Bin(BK::FSub) => r(f(x) - f(y)),
                        F32K::Bin(BK::FMul) => r(f(x) * f(y)),
                        F32K::Bin(BK::FDiv) => r(f(x) / f(y)),
                        F32K::Bin(_) => r(f(x) % f(y)),
                        F32K::Neg => r(-f(x)),
                        F32K::Cmp(p) => match self.fcmp(p, &V::C((f(x) as f64).to_bits()), &V::C((f(y) as f64).to_bits())) { V::C(c) => c, _ => 0 },
                        F32K::UToF => r(x as f32),
                        F32K::SToF(w) => r(sx(x, w) as f32),
                        F32K::FToU => f(x) as u64,
                        F32K::FToS(w) => m(f(x) as i64, w),
                        F32K::Ext => (f(x) as f64).to_bits(),
                        F32K::Trunc => r(f64::from_bits(x) as f32),
                    });
                    fr.pc += 1;
                }
                CI::Rmw { op, w, d, p, v } => {
                    let p = concrete!(self.rd(fr, *p));
                    let n = (*w / 8) as usize;
                    let old = self.load_bytes(p, n)?;
                    let x = self.rd(fr, *v);
                    let new = match op {
                        RK::Xchg => x,
                        RK::Add => self.bin(BK::Add, *w, &old, &x)?,
                        RK::Sub => self.bin(BK::Sub, *w, &old, &x)?,
                        RK::And => self.bin(BK::And, *w, &old, &x)?,
                        RK::Or => self.bin(BK::Or, *w, &old, &x)?,
                        RK::Xor => self.bin(BK::Xor, *w, &old, &x)?,
                        RK::UMax | RK::UMin => match (&old, &x) {
                            (V::C(a), V::C(b)) => V::C(if (*op == RK::UMax) == (a > b) { *a } else { *b }),
                            _ => return Err(Stop::Engine("symbolic atomic max".into())),
                        },
                    };
                    self.store_bytes(p, n, &new)?;
                    fr.regs[*d as usize] = old;
                    fr.pc += 1;
                }
                CI::CmpXchg { w, d, p, c, n } => {
                    let p = concrete!(self.rd(fr, *p));
                    let nb = (*w / 8) as usize;
                    let old = self.load_bytes(p, nb)?;
                    let c = self.rd(fr, *c);
                    let same = self.icmp(Pred::Eq, *w, &old, &c);
                    let eq = match same {
                        V::C(x) => x == 1,
                        v => with_frame!(self.conc_v(&v)) == 1,
                    };
                    if eq {
                        let n = self.rd(fr, *n);
                        self.store_bytes(p, nb, &n)?;
                    }
                    fr.regs[*d as usize] = V::A(Rc::new(vec![old, V::C(eq as u64)]));
                    fr.pc += 1;
                }
                CI::VBin { op, w, d, a, b } => {
                    let x = self.rd(fr, *a);
                    let y = self.rd(fr, *b);
                    let r = match (&x, &y) {
                        (V::A(x), V::A(y)) => {
                            let mut v = vec![];
                            for (p, q) in x.iter().zip(y.iter()) {
                                v.push(with_frame!(self.bin(*op, *w, p, q)));
                            }
                            V::A(Rc::new(v))
                        }
                        _ => return Err(Stop::Engine("vector op".into())),
                    };
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                CI::VICmp { p, w, d, a, b } => {
                    let x = self.rd(fr, *a);
                    let y = self.rd(fr, *b);
                    let r = match (&x, &y) {
                        (V::A(x), V::A(y)) => {
                            let v = x.iter().zip(y.iter()).map(|(s, t)| self.icmp(*p, *w, s, t)).collect();
                            V::A(Rc::new(v))
                        }
                        _ => return Err(Stop::Engine("vector cmp".into())),
                    };
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                CI::VSel { d, c, a, b } => {
                    let c = self.rd(fr, *c);
                    let x = self.rd(fr, *a);
                    let y = self.rd(fr, *b);
                    let r = match (&c, &x, &y) {
                        (V::A(c), V::A(x), V::A(y)) => {
                            let mut v = vec![];
                            for i in 0..c.len() {
                                let k = with_frame!(self.conc_bool(&c[i]));
                                v.push(if k { x[i].clone() } else { y[i].clone() });
                            }
                            V::A(Rc::new(v))
                        }
                        _ => return Err(Stop::Engine("vector select".into())),
                    };
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                CI::VCast { k, from, to, d, a } => {
                    let x = self.rd(fr, *a);
                    let r = self.vcast(*k, from, to, &x)?;
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                CI::ExtractE { d, a, i } => {
                    let x = self.rd(fr, *a);
                    let i = concrete!(self.rd(fr, *i));
                    fr.regs[*d as usize] = match &x {
                        V::A(v) => v[i as usize].clone(),
                        _ => return Err(Stop::Engine("extractelement".into())),
                    };
                    fr.pc += 1;
                }
                CI::InsertE { d, a, v, i, n } => {
                    let x = self.rd(fr, *a);
                    let e = self.rd(fr, *v);
                    let i = concrete!(self.rd(fr, *i));
                    let mut l = match &x {
                        V::A(v) => (**v).clone(),
                        _ => vec![V::C(0); *n as usize],
                    };
                    l[i as usize] = e;
                    fr.regs[*d as usize] = V::A(Rc::new(l));
                    fr.pc += 1;
                }
                CI::Shuffle { d, a, b, n, m } => {
                    let x = self.rd(fr, *a);
                    let y = self.rd(fr, *b);
                    let r = match (&x, &y) {
                        (V::A(x), V::A(y)) => m
                            .iter()
                            .map(|&i| if i < *n { x[i as usize].clone() } else { y.get((i - n) as usize).cloned().unwrap_or(V::C(0)) })
                            .collect(),
                        _ => return Err(Stop::Engine("shuffle".into())),
                    };
                    fr.regs[*d as usize] = V::A(Rc::new(r));
                    fr.pc += 1;
                }
                CI::Unsup(s) => return Err(Stop::Engine(format!("unsupported instruction: {} in {}", s, cf.name))),
            }
        }
    }
    fn vcast(&mut self, k: CK, from: &Ty, to: &Ty, a: &V) -> R<V> {
        match (from, to) {
            (Ty::Vec(_, fe), Ty::Vec(_, te)) if k != CK::Bit => {
                let l = match a {
                    V::A(v) => v.clone(),
                    _ => return Err(Stop::Engine("vcast".into())),
                };
                let mut out = vec![];
                for x in l.iter() {
                    out.push(self.cast(k, fe.bits() as u8, te.bits() as u8, x)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => {
                // bit-level reinterpretation: flatten to one integer and re-split
                let (fw, n) = match from {
                    Ty::Vec(n, e) => (e.bits(), *n),
                    t => (t.bits(), 1),
                };
                let (tw, m) = match to {
                    Ty::Vec(m, e) => (e.bits(), *m),
                    t => (t.bits(), 1),
                };
                let total = (fw * n) as u8;
                let parts: Vec<V> = match a {
                    V::A(v) => (**v).clone(),
                    v => vec![v.clone()],
                };
                let mut e = self.to_e(&parts[0], fw as u8);
                for p in &parts[1..] {
                    let x = self.to_e(p, fw as u8);
                    e = self.pool.concat(x, e);
                }
                debug_assert_eq!(self.pool.w(e), total);
                if let Ty::Vec(..) = to {
                    let mut out = vec![];
                    for i in 0..m {
                        let x = self.pool.ext(e, (i * tw) as u8, tw as u8);
                        out.push(self.from_e(x));
                    }
                    Ok(V::A(Rc::new(out)))
                } else {
                    Ok(self.from_e(e))
                }
            }
        }
    }

    // -------------------------------------------------------------- exploration
    pub fn explore(&mut self) {
        use std::sync::atomic::Ordering::*;
        loop {
            let s = self.run_path();
            let sh = unsafe { &*self.sh };
            self.stats.steps += self.st.steps;
            match s {
                Stop::Done => {
                    self.stats.paths += 1;
                    let n = sh.paths.fetch_add(1, SeqCst);
                    self.sample(n);
                }
                Stop::Infeasible | Stop::Unknown => self.stats.infeasible += 1,
                Stop::Panic(m) => {
                    self.stats.panics += 1;
                    self.stats.paths += 1;
                    sh.paths.fetch_add(1, SeqCst);
                    self.violation("panic", &m);
                }
                Stop::Bug(m) => {
                    self.stats.panics += 1;
                    self.stats.paths += 1;
                    let w = self.backtrace();
                    let m = format!("{} in {}", m, w.split(" < ").next().unwrap_or(""));
                    self.violation("bug", &m);
                }
                Stop::Hang(m) => {
                    self.stats.paths += 1;
                    self.violation("hang", &m);
                }
                Stop::Engine(m) => {
                    sh.errors.fetch_add(1, SeqCst);
                    let iv = self.input_values();
                    let ev = format!("{{\"ev\":\"engine_error\",\"msg\":{},\"where\":{},\"inputs\":{}}}\n", js(&m), js(&self.backtrace()), inputs_js(&iv));
                    self.event(&ev);
                    sh.stop.store(3, SeqCst);
                }
            }
            if self.start.elapsed().as_secs_f64() > self.cfg.deadline {
                let _ = sh.stop.compare_exchange(0, 1, SeqCst, SeqCst);
            }
            if sh.stop.load(SeqCst) != 0 {
                self.stats.pending += self.stack.len() as u64;
                return;
            }
            match self.stack.pop() {
                Some(st) => {
                    let steps = 0;
                    self.st = st;
                    let _ = steps;
                    self.memo.clear();
                }
                None => return,
            }
        }
    }
    fn sample(&mut self, n: u64) {
        use std::sync::atomic::Ordering::*;
        let sh = unsafe { &*self.sh };
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let take = n < 8 || (self.rng >> 33) % (1 + n / 16) == 0;
        if !take || sh.samples.load(SeqCst) >= self.cfg.samples {
            return;
        }
        sh.samples.fetch_add(1, SeqCst);
        let iv = self.input_values();
        let tv = self.trace_values();
        let ev = format!("{{\"ev\":\"sample\",\"inputs\":{},\"trace\":{:?},\"notes\":{}}}\n", inputs_js(&iv), tv, notes_js(&self.st.notes));
        self.event(&ev);
    }
    /// give the oldest pending state to a new process when a slot is free
    fn donate(&mut self) {
        use std::sync::atomic::Ordering::*;
        let sh = unsafe { &*self.sh };
        if self.cfg.jobs <= 1 || self.stack.is_empty() {
            return;
        }
        let a = sh.active.load(SeqCst);
        if a >= self.cfg.jobs {
            return;
        }
        if sh.active.compare_exchange(a, a + 1, SeqCst, SeqCst).is_err() {
            return;
        }
        let pid = unsafe { crate::ext::fork() };
        if pid < 0 {
            sh.active.fetch_sub(1, SeqCst);
            return;
        }
        if pid == 0 {
            // child: own only the oldest pending state
            self.child = true;
            let st = self.stack.remove(0);
            self.stack.clear();
            self.st = st;
            self.memo.clear();
            self.stats = Stats::default();
            self.covers.clear();
            self.asserts_by.clear();
            self.fork_sites.clear();
            self.reported.clear();
            self.rng ^= unsafe { crate::ext::getpid() } as u64;
            sh.procs.fetch_add(1, SeqCst);
            self.explore();
            self.finish();
        }
        self.children += 1;
        self.stack.remove(0);
    }
    pub fn finish(&mut self) -> ! {
        use std::sync::atomic::Ordering::*;
        self.write_stats();
        let sh = unsafe { &*self.sh };
        sh.active.fetch_sub(1, SeqCst);
        unsafe { crate::ext::_exit(0) }
    }
    pub fn write_stats(&mut self) {
        let s = &self.stats;
        let mut cov = vec![];
        for (k, v) in &self.covers {
            cov.push(format!("{}:{}", js(k), v));
        }
        let mut asr = vec![];
        for (k, v) in &self.asserts_by {
            asr.push(format!("{}:[{},{}]", js(k), v.0, v.1));
        }
        let mut fs: Vec<_> = self.fork_sites.iter().collect();
        fs.sort_by_key(|x| std::cmp::Reverse(*x.1));
        let fs: Vec<String> = fs
            .iter()
            .take(40)
            .map(|((f, pc), n)| format!("[{},{},{}]", js(&demangle(&self.prog.funcs[*f as usize].name)), pc, n))
            .collect();
        let seen: Vec<String> = self.funcs_seen.iter().enumerate().filter(|x| *x.1).map(|x| x.0.to_string()).collect();
        let ev = format!(
            "{{\"ev\":\"stats\",\"paths\":{},\"infeasible\":{},\"forks\":{},\"queries\":{},\"qcache\":{},\"qsat\":{},\"qunsat\":{},\"solver_ns\":{},\"max_query_ns\":{},\"asserts\":{},\"assert_sym\":{},\"assert_folded\":{},\"steps\":{},\"panics\":{},\"pending\":{},\"max_pc\":{},\"unknown\":{},\"covers\":{{{}}},\"asserts_by\":{{{}}},\"fork_sites\":[{}],\"funcs\":[{}]}}\n",
            s.paths, s.infeasible, s.forks, s.queries, s.qcache, s.qsat, s.qunsat, s.solver_ns, s.max_query_ns, s.asserts, s.assert_sym, s.assert_folded, s.steps, s.panics, s.pending, s.max_pc, s.unknown,
            cov.join(","), asr.join(","), fs.join(","), seen.join(",")
        );
        self.event(&ev);
    }
}

fn insertv(agg: V, t: &Ty, idx: &[u32], x: V) -> V {
    let n = match t {
        Ty::Struct(f, _) => f.len(),
        Ty::Arr(n, _) => *n as usize,
        _ => 1,
    };
    let mut l = match agg {
        V::A(v) => (*v).clone(),
        _ => vec![V::C(0); n],
    };
    let i = idx[0] as usize;
    if idx.len() == 1 {
        l[i] = x;
    } else {
        let sub = t.elem(i);
        let old = l[i].clone();
        l[i] = insertv(old, &sub, &idx[1..], x);
    }
    V::A(Rc::new(l))
}

enum FrameEnd {
    Return(V),
    Call(u32, Vec<V>, u32, u32),
    #[allow(dead_code)]
    Yield,
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn inputs_js(v: &[(String, i64)]) -> String {
    let l: Vec<String> = v.iter().map(|(n, x)| format!("[{},{}]", js(n), x)).collect();
    format!("[{}]", l.join(","))
}
pub fn notes_js(v: &[String]) -> String {
    let l: Vec<String> = v.iter().map(|n| js(n)).collect();
    format!("[{}]", l.join(","))
}

/// rough demangling of v0 / legacy symbols: the identifiers, joined by ::
pub fn demangle(s: &str) -> String {
    let b = s.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    if !(s.starts_with("_R") || s.starts_with("_ZN")) {
        return s.to_string();
    }
    while i < b.len() {
        if b[i].is_ascii_digit() && i > 0 {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let n: usize = s[i..j].parse().unwrap_or(0);
            let st = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
            if n > 0 && st + n <= b.len() && b[st].is_ascii_alphabetic() | (b[st] == b'_') {
                let id = &s[st..st + n];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c == b'.') {
                    out.push(id.to_string());
                    i = st + n;
                    continue;
                }
            }
            i = j;
        } else if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_ : skip
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 14 && i > 1 && (b[i - 1] == b'C' || b[i - 1] == b't' || b[i-1] == b'v' || b[i-1] == b'M') {
                i = j + 1;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    if out.is_empty() { s.to_string() } else { out.join("::") }
}
