//! Hash-consed expression DAG with a local simplifier.
//!
//! Sorts: bit-vectors of width 1..=128 (width 1 doubles as Bool) and f64 (width == FW).
//! Symbolic doubles are kept in the exact dyadic form  `(-1)^?  n * 2^-k`  (node `FDy`),
//! with a separate "is negative zero" bit, for as long as every operation on them is exact
//! (checked with the value range of `n`); otherwise an uninterpreted-shape node is built and
//! the solver's floating-point theory decides (`FBin`, `FUn`).
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

/// integer polynomial over atoms: sorted monomials (sorted atoms) with non-zero coefficients
#[derive(Clone, PartialEq, Debug)]
pub struct Poly(pub Vec<(Vec<E>, i128)>);

pub type E = u32;
pub const FW: u8 = 255;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FMap<K, V> = HashMap<K, V, FxB>;
pub type FSet<K> = std::collections::HashSet<K, FxB>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cmp {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FB {
    Add,
    Sub,
    Mul,
    Div,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FU {
    Neg,
    Abs,
    Sqrt,
    Round, // half away from zero
    Floor,
    Ceil,
    Trunc,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FC {
    Eq, // ordered
    Lt,
    Le,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    C(u128),
    Var(u32),
    Bin(B, E, E),
    Cmp(Cmp, E, E),
    Ite(E, E, E),
    ZExt(E),
    SExt(E),
    Ext(E, u8),
    Concat(E, E), // hi, lo
    FConst(u64),
    FDy(E, i16, E),
    FBin(FB, E, E),
    FUn(FU, E),
    FIte(E, E, E),
    FFromBits(E),
    FBits(E),
    FCmp(FC, E, E),
    FIsNan(E),
    SToF(E),
    UToF(E),
    FToS(E), // saturating, width of node
    FToU(E),
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub w: u8,
    pub smin: i128,
    pub smax: i128,
    pub umin: u128,
    pub umax: u128,
    pub vars: u128,
    pub fp: bool, // contains FP-theory nodes
}

pub struct VarInfo {
    pub w: u8,
    pub lo: i64,
    pub hi: i64,
    pub name: String,
}

pub struct Pool {
    pub n: Vec<N>,
    pub info: Vec<Info>,
    map: FMap<(N, u8), E>,
    pub vars: Vec<VarInfo>,
    polys: FMap<E, Rc<Poly>>,
    pub tru: E,
    pub fls: E,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext128(v: u128, w: u8) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}
fn smin_w(w: u8) -> i128 {
    if w >= 128 { i128::MIN } else { -(1i128 << (w - 1)) }
}
fn smax_w(w: u8) -> i128 {
    if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 }
}
fn need_bits(lo: i128, hi: i128) -> u8 {
    // signed width needed for [lo, hi]
    let f = |v: i128| -> u32 { if v >= 0 { 129 - v.leading_zeros() } else { 129 - (!v).leading_zeros() } };
    f(lo).max(f(hi)).max(1) as u8
}

/// decompose a finite f64 as m * 2^-k with m odd (or 0,k=0)
pub fn dyadic(bits: u64) -> Option<(i128, i16, bool)> {
    let f = f64::from_bits(bits);
    if !f.is_finite() {
        return None;
    }
    if f == 0.0 {
        return Some((0, 0, f.is_sign_negative()));
    }
    let exp = ((bits >> 52) & 0x7ff) as i32;
    let frac = bits & ((1 << 52) - 1);
    let (mut m, mut e) = if exp == 0 { (frac, -1074) } else { (frac | (1 << 52), exp - 1075) };
    let tz = m.trailing_zeros();
    m >>= tz;
    e += tz as i32;
    let m = if f < 0.0 { -(m as i128) } else { m as i128 };
    Some((m, (-e) as i16, false))
}
pub fn undyadic(n: i128, k: i16, nz: bool) -> f64 {
    if n == 0 {
        return if nz { -0.0 } else { 0.0 };
    }
    (n as f64) * (2f64).powi(-(k as i32))
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool { n: vec![], info: vec![], map: FMap::default(), vars: vec![], polys: FMap::default(), tru: 0, fls: 0 };
        p.fls = p.c(0, 1);
        p.tru = p.c(1, 1);
        p
    }
    pub fn w(&self, e: E) -> u8 {
        self.info[e as usize].w
    }
    pub fn node(&self, e: E) -> N {
        self.n[e as usize]
    }
    pub fn vars_of(&self, e: E) -> u128 {
        self.info[e as usize].vars
    }
    pub fn is_c(&self, e: E) -> Option<u128> {
        match self.n[e as usize] {
            N::C(v) => Some(v),
            N::FConst(b) => Some(b as u128),
            _ => None,
        }
    }
    fn mk(&mut self, n: N, w: u8) -> E {
        if let Some(&e) = self.map.get(&(n, w)) {
            return e;
        }
        let e = self.n.len() as E;
        let info = self.compute_info(&n, w);
        self.n.push(n);
        self.info.push(info);
        self.map.insert((n, w), e);
        e
    }
    /// mk for bit-vectors, folding to a constant when the range is a single value
    fn mkr(&mut self, n: N, w: u8) -> E {
        let e = self.mk(n, w);
        let i = self.info[e as usize];
        if i.umin == i.umax && !matches!(n, N::C(_)) {
            return self.c(i.umin, w);
        }
        if i.smin == i.smax && !matches!(n, N::C(_)) {
            return self.c(i.smin as u128, w);
        }
        e
    }
    fn compute_info(&self, n: &N, w: u8) -> Info {
        let g = |e: E| self.info[e as usize];
        let mut vars = 0u128;
        let mut fp = false;
        {
            let mut add = |e: E| {
                vars |= self.info[e as usize].vars;
                fp |= self.info[e as usize].fp;
            };
            match *n {
                N::C(_) | N::FConst(_) => {}
                N::Var(i) => vars = 1u128 << (i % 128),
                N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) | N::FBin(_, a, b) | N::FCmp(_, a, b) => {
                    add(a);
                    add(b)
                }
                N::FDy(a, _, b) => {
                    add(a);
                    add(b)
                }
                N::Ite(a, b, c) | N::FIte(a, b, c) => {
                    add(a);
                    add(b);
                    add(c)
                }
                N::ZExt(a) | N::SExt(a) | N::Ext(a, _) | N::FUn(_, a) | N::FFromBits(a) | N::FBits(a) | N::FIsNan(a) | N::SToF(a)
                | N::UToF(a) | N::FToS(a) | N::FToU(a) => add(a),
            }
        }
        match n {
            N::FBin(..) | N::FFromBits(_) | N::SToF(_) | N::UToF(_) | N::FToS(_) | N::FToU(_) | N::FBits(_) | N::FCmp(..) | N::FIsNan(_) => fp = true,
            N::FUn(..) => fp = true,
            _ => {}
        }
        let mut i = Info { w, smin: 0, smax: 0, umin: 0, umax: 0, vars, fp };
        if w == FW {
            return i;
        }
        i.smin = smin_w(w);
        i.smax = smax_w(w);
        i.umax = mask(w);
        let (fsmin, fsmax, fumax) = (i.smin, i.smax, i.umax);
        let mut signed_known = false;
        let mut unsigned_known = false;
        match *n {
            N::C(v) => {
                i.umin = v;
                i.umax = v;
                i.smin = sext128(v, w);
                i.smax = i.smin;
                return i;
            }
            N::Var(x) => {
                let v = &self.vars[x as usize];
                i.smin = v.lo as i128;
                i.smax = v.hi as i128;
                signed_known = true;
            }
            N::Bin(op, a, b) => {
                let (x, y) = (g(a), g(b));
                match op {
                    B::Add | B::Sub | B::Mul if w < 64 || true => {
                        if w <= 64 {
                            let c: Vec<i128> = match op {
                                B::Add => vec![x.smin + y.smin, x.smax + y.smax],
                                B::Sub => vec![x.smin - y.smax, x.smax - y.smin],
                                _ => vec![x.smin * y.smin, x.smin * y.smax, x.smax * y.smin, x.smax * y.smax],
                            };
                            let lo = *c.iter().min().unwrap();
                            let hi = *c.iter().max().unwrap();
                            if lo >= fsmin && hi <= fsmax {
                                i.smin = lo;
                                i.smax = hi;
                                signed_known = true;
                            }
                            if op == B::Add && x.umax + y.umax <= fumax {
                                i.umin = x.umin + y.umin;
                                i.umax = x.umax + y.umax;
                                unsigned_known = true;
                            }
                            if op == B::Sub && x.umin >= y.umax {
                                i.umin = x.umin - y.umax;
                                i.umax = x.umax - y.umin;
                                unsigned_known = true;
                            }
                            if op == B::Mul {
                                if let Some(hi) = x.umax.checked_mul(y.umax) {
                                    if hi <= fumax {
                                        i.umin = x.umin * y.umin;
                                        i.umax = hi;
                                        unsigned_known = true;
                                    }
                                }
                            }
                        }
                    }
                    B::And => {
                        i.umax = x.umax.min(y.umax);
                        unsigned_known = true;
                    }
                    B::Or | B::Xor => {
                        let m = x.umax | y.umax;
                        let bits = 128 - m.leading_zeros();
                        i.umax = mask(bits as u8).min(fumax);
                        if bits == 0 {
                            i.umax = 0
                        }
                        if op == B::Or {
                            i.umin = x.umin.max(y.umin);
                        }
                        unsigned_known = true;
                    }
                    B::LShr => {
                        if y.umin == y.umax && y.umin < w as u128 {
                            i.umin = x.umin >> y.umin;
                            i.umax = x.umax >> y.umin;
                        } else {
                            i.umax = x.umax;
                        }
                        unsigned_known = true;
                    }
                    B::AShr => {
                        if y.umin == y.umax && y.umin < w as u128 {
                            i.smin = x.smin >> y.umin;
                            i.smax = x.smax >> y.umin;
                            signed_known = true;
                        }
                    }
                    B::Shl => {
                        if y.umin == y.umax && y.umin < 64 && w <= 64 {
                            let hi = x.umax << y.umin;
                            if hi <= fumax {
                                i.umin = x.umin << y.umin;
                                i.umax = hi;
                                unsigned_known = true;
                            }
                            let (l, h) = (x.smin << y.umin, x.smax << y.umin);
                            if l >= fsmin && h <= fsmax {
                                i.smin = l;
                                i.smax = h;
                                signed_known = true;
                            }
                        }
                    }
                    B::URem => {
                        if y.umin > 0 {
                            i.umax = x.umax.min(y.umax - 1);
                            unsigned_known = true;
                        }
                    }
                    B::UDiv => {
                        if y.umin > 0 {
                            i.umin = x.umin / y.umax;
                            i.umax = x.umax / y.umin;
                            unsigned_known = true;
                        }
                    }
                    _ => {}
                }
            }
            N::Cmp(..) | N::FCmp(..) | N::FIsNan(_) => {}
            N::Ite(_, a, b) => {
                let (x, y) = (g(a), g(b));
                i.smin = x.smin.min(y.smin);
                i.smax = x.smax.max(y.smax);
                i.umin = x.umin.min(y.umin);
                i.umax = x.umax.max(y.umax);
                return i;
            }
            N::ZExt(a) => {
                let x = g(a);
                i.umin = x.umin;
                i.umax = x.umax;
                unsigned_known = true;
            }
            N::SExt(a) => {
                let x = g(a);
                i.smin = x.smin;
                i.smax = x.smax;
                signed_known = true;
            }
            N::Ext(a, lo) => {
                let x = g(a);
                if lo == 0 {
                    if x.umax <= fumax {
                        i.umin = x.umin;
                        i.umax = x.umax;
                        unsigned_known = true;
                    }
                    if x.smin >= fsmin && x.smax <= fsmax {
                        i.smin = x.smin;
                        i.smax = x.smax;
                        signed_known = true;
                    }
                } else {
                    let m = x.umax >> lo;
                    if m <= fumax {
                        i.umin = x.umin >> lo;
                        i.umax = m;
                        unsigned_known = true;
                    }
                }
            }
            N::Concat(a, b) => {
                let (x, y) = (g(a), g(b));
                let s = y.w;
                i.umin = (x.umin << s) | y.umin;
                i.umax = (x.umax << s) | y.umax;
                unsigned_known = true;
            }
            _ => {}
        }
        if w == 1 {
            // signed view of a 1-bit value is confusing; derive from unsigned only
            i.smin = -1;
            i.smax = 0;
            if i.umin == 1 {
                i.smax = -1
            }
            if i.umax == 0 {
                i.smin = 0
            }
            return i;
        }
        if signed_known && i.smin >= 0 {
            i.umin = i.umin.max(i.smin as u128);
            i.umax = i.umax.min(i.smax as u128);
        } else if signed_known && i.smax < 0 {
            i.umin = i.umin.max((i.smin as u128) & fumax);
            i.umax = i.umax.min((i.smax as u128) & fumax);
        }
        if unsigned_known && i.umax <= fsmax as u128 {
            i.smin = i.smin.max(i.umin as i128);
            i.smax = i.smax.min(i.umax as i128);
        }
        i
    }

    // ---------------------------------------------------------------- constructors
    pub fn c(&mut self, v: u128, w: u8) -> E {
        self.mk(N::C(v & mask(w)), w)
    }
    pub fn ci(&mut self, v: i128, w: u8) -> E {
        self.c(v as u128, w)
    }
    pub fn b(&mut self, v: bool) -> E {
        if v { self.tru } else { self.fls }
    }
    pub fn var(&mut self, name: &str, lo: i64, hi: i64, idx: usize) -> E {
        let w = need_bits(lo as i128, hi as i128).max(2);
        if idx < self.vars.len() && (self.vars[idx].name != name || self.vars[idx].lo != lo || self.vars[idx].hi != hi) {
            // a different variable at this position on another path: search/append
            for (j, v) in self.vars.iter().enumerate() {
                if v.name == name && v.lo == lo && v.hi == hi {
                    return self.mk(N::Var(j as u32), w);
                }
            }
        } else if idx < self.vars.len() {
            return self.mk(N::Var(idx as u32), w);
        }
        self.vars.push(VarInfo { w, lo, hi, name: name.to_string() });
        let j = self.vars.len() as u32 - 1;
        self.mk(N::Var(j), w)
    }
    pub fn not(&mut self, a: E) -> E {
        // boolean not
        let t = self.tru;
        self.bin(B::Xor, a, t)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(B::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(B::Or, a, b)
    }
    pub fn fold(op: B, w: u8, a: u128, b: u128) -> Option<u128> {
        let m = mask(w);
        let r = match op {
            B::Add => a.wrapping_add(b),
            B::Sub => a.wrapping_sub(b),
            B::Mul => a.wrapping_mul(b),
            B::UDiv => {
                if b == 0 {
                    return None;
                }
                a / b
            }
            B::URem => {
                if b == 0 {
                    return None;
                }
                a % b
            }
            B::SDiv => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    return None;
                }
                x.wrapping_div(y) as u128
            }
            B::SRem => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    return None;
                }
                x.wrapping_rem(y) as u128
            }
            B::Shl => {
                if b >= w as u128 { 0 } else { a << b }
            }
            B::LShr => {
                if b >= w as u128 { 0 } else { a >> b }
            }
            B::AShr => {
                let x = sext128(a, w);
                (x >> (b.min(w as u128 - 1))) as u128
            }
            B::And => a & b,
            B::Or => a | b,
            B::Xor => a ^ b,
        };
        Some(r & m)
    }
    pub fn bin(&mut self, op: B, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.is_c(a), self.is_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = Self::fold(op, w, x, y) {
                return self.c(r, w);
            }
        }
        // constants to the right for commutative ops
        if matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor) {
            if ca.is_some() && cb.is_none() {
                return self.bin(op, b, a);
            }
            if ca.is_none() && cb.is_none() && a > b {
                return self.bin(op, b, a);
            }
        }
        let m = mask(w);
        match op {
            B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr if cb == Some(0) => return a,
            _ => {}
        }
        match op {
            B::Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(y) = cb {
                    let nc = self.c(y.wrapping_neg(), w);
                    return self.bin(B::Add, a, nc);
                }
                if w == 64 {
                    // constants outermost: (x + c) - y, x - (y + c)
                    if let N::Bin(B::Add, x, c) = self.node(a) {
                        if let Some(c0) = self.is_c(c) {
                            let d = self.bin(B::Sub, x, b);
                            let nc = self.c(c0, w);
                            return self.bin(B::Add, d, nc);
                        }
                    }
                    if let N::Bin(B::Add, y, c) = self.node(b) {
                        if let Some(c0) = self.is_c(c) {
                            let d = self.bin(B::Sub, a, y);
                            let nc = self.c(c0.wrapping_neg(), w);
                            return self.bin(B::Add, d, nc);
                        }
                    }
                }
            }
            B::Add => {
                if let (Some(y), N::Bin(B::Add, x, c)) = (cb, self.node(a)) {
                    if let Some(c0) = self.is_c(c) {
                        let nc = self.c(c0.wrapping_add(y), w);
                        return self.bin(B::Add, x, nc);
                    }
                }
            }
            B::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let (Some(y), N::Bin(B::Mul, x, c)) = (cb, self.node(a)) {
                    if let Some(c0) = self.is_c(c) {
                        let nc = self.c(c0.wrapping_mul(y), w);
                        return self.bin(B::Mul, x, nc);
                    }
                }
            }
            B::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if let (Some(y), N::Bin(B::And, x, c)) = (cb, self.node(a)) {
                    if let Some(c0) = self.is_c(c) {
                        let nc = self.c(c0 & y, w);
                        return self.bin(B::And, x, nc);
                    }
                }
                // mask covering the whole range
                if let Some(y) = cb {
                    let um = self.info[a as usize].umax;
                    let bits = 128 - um.leading_zeros();
                    if bits < 128 && (y & mask(bits as u8)) == mask(bits as u8) && bits > 0 {
                        return a;
                    }
                    if let N::ZExt(x) = self.node(a) {
                        let xw = self.w(x);
                        let c = self.c(y & mask(xw), xw);
                        let r = self.bin(B::And, x, c);
                        return self.zext(r, w);
                    }
                    if let N::FBits(f) = self.node(a) {
                        if y == 0x7fff_ffff_ffff_ffff {
                            let r = self.fun(FU::Abs, f);
                            return self.fbits(r);
                        }
                    }
                    if let N::Ite(c, x, z) = self.node(a) {
                        if self.is_c(x).is_some() && self.is_c(z).is_some() {
                            let x2 = self.bin(op, x, b);
                            let z2 = self.bin(op, z, b);
                            return self.ite(c, x2, z2);
                        }
                    }
                }
                if w == 1 {
                    let nb = self.not_nosimp(b);
                    if nb == Some(a) {
                        return self.fls;
                    }
                    // absorption: a & (a & x)
                    if let N::Bin(B::And, x, y) = self.node(b) {
                        if x == a || y == a {
                            return b;
                        }
                    }
                    if let N::Bin(B::And, x, y) = self.node(a) {
                        if x == b || y == b {
                            return a;
                        }
                    }
                }
            }
            B::Or => {
                if cb == Some(m) {
                    return b;
                }
                if a == b {
                    return a;
                }
                if w == 1 {
                    let nb = self.not_nosimp(b);
                    if nb == Some(a) {
                        return self.tru;
                    }
                }
                // zext(x) | shl(zext(y), k)  -> concat
                if let Some(r) = self.try_concat(a, b).or_else(|| self.try_concat(b, a)) {
                    return r;
                }
            }
            B::Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if let (Some(y), N::Bin(B::Xor, x, c)) = (cb, self.node(a)) {
                    if let Some(c0) = self.is_c(c) {
                        let nc = self.c(c0 ^ y, w);
                        return self.bin(B::Xor, x, nc);
                    }
                }
                if let (Some(y), N::Ite(c, x, z)) = (cb, self.node(a)) {
                    let _ = y;
                    if self.is_c(x).is_some() && self.is_c(z).is_some() {
                        let x2 = self.bin(op, x, b);
                        let z2 = self.bin(op, z, b);
                        return self.ite(c, x2, z2);
                    }
                }
                if cb == Some(1 << 63) && w == 64 {
                    if let N::FBits(f) = self.node(a) {
                        let r = self.fun(FU::Neg, f);
                        return self.fbits(r);
                    }
                }
                if let (Some(y), N::ZExt(x)) = (cb, self.node(a)) {
                    let xw = self.w(x);
                    if y & !mask(xw) == 0 {
                        let c = self.c(y, xw);
                        let r = self.bin(B::Xor, x, c);
                        return self.zext(r, w);
                    }
                }
            }
            B::Shl => {
                if let Some(y) = cb {
                    if y >= w as u128 {
                        return self.c(0, w);
                    }
                }
                if ca == Some(0) {
                    return a;
                }
            }
            B::LShr => {
                if ca == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 {
                        return self.c(0, w);
                    }
                    if y == 63 && w == 64 {
                        if let N::FBits(f) = self.node(a) {
                            let s = self.fsign(f);
                            return self.zext(s, 64);
                        }
                    }
                    let x = self.ext(a, y as u8, w - y as u8);
                    return self.zext(x, w);
                }
            }
            B::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(B::LShr, a, s);
                    }
                }
            }
            B::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.c(y - 1, w);
                        return self.bin(B::And, a, s);
                    }
                    if self.info[a as usize].umax < y {
                        return a;
                    }
                }
            }
            B::SDiv => {
                if cb == Some(1) {
                    return a;
                }
            }
            _ => {}
        }
        // distribute over ite with constant arms (keeps discriminant arithmetic small)
        if let (N::Ite(c, x, y), Some(_)) = (self.node(a), cb) {
            if self.is_c(x).is_some() && self.is_c(y).is_some() {
                let x2 = self.bin(op, x, b);
                let y2 = self.bin(op, y, b);
                return self.ite(c, x2, y2);
            }
        }
        self.mkr(N::Bin(op, a, b), w)
    }
    fn not_nosimp(&self, b: E) -> Option<E> {
        match self.node(b) {
            N::Bin(B::Xor, x, c) if self.is_c(c) == Some(1) && self.w(b) == 1 => Some(x),
            _ => None,
        }
    }
    fn try_concat(&mut self, lo: E, hi: E) -> Option<E> {
        let w = self.w(lo);
        if let N::ZExt(x) = self.node(lo) {
            if let N::Bin(B::Shl, y, k) = self.node(hi) {
                if let Some(k) = self.is_c(k) {
                    let xw = self.w(x);
                    if k as u8 >= xw {
                        if let N::ZExt(z) = self.node(y) {
                            if k as u32 + self.w(z) as u32 <= w as u32 {
                                let lo2 = self.zext(x, k as u8);
                                let c = self.concat(z, lo2);
                                return Some(self.zext(c, w));
                            }
                        }
                    }
                }
            }
        }
        None
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        if let Some(v) = self.is_c(a) {
            return self.c(v, w);
        }
        if let N::ZExt(x) = self.node(a) {
            return self.zext(x, w);
        }
        if let N::Ite(c, x, y) = self.node(a) {
            if self.is_c(x).is_some() || self.is_c(y).is_some() {
                let x2 = self.zext(x, w);
                let y2 = self.zext(y, w);
                return self.ite(c, x2, y2);
            }
        }
        self.mkr(N::ZExt(a), w)
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w, "sext {} -> {}", aw, w);
        if let Some(v) = self.is_c(a) {
            return self.c(sext128(v, aw) as u128, w);
        }
        if aw > 1 && self.info[a as usize].smin >= 0 {
            return self.zext(a, w);
        }
        match self.node(a) {
            N::SExt(x) => return self.sext(x, w),
            N::ZExt(x) => return self.zext(x, w),
            N::Ite(c, x, y) if self.is_c(x).is_some() || self.is_c(y).is_some() => {
                let x2 = self.sext(x, w);
                let y2 = self.sext(y, w);
                return self.ite(c, x2, y2);
            }
            _ => {}
        }
        if aw == 1 {
            let m = self.c(mask(w), w);
            let z = self.c(0, w);
            return self.ite(a, m, z);
        }
        self.mkr(N::SExt(a), w)
    }
    /// bits [lo, lo+w)
    pub fn ext(&mut self, a: E, lo: u8, w: u8) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(v) = self.is_c(a) {
            return self.c(v >> lo, w);
        }
        match self.node(a) {
            N::Ext(x, l2) => return self.ext(x, lo + l2, w),
            N::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    return self.c(0, w);
                }
                if lo + w <= xw {
                    return self.ext(x, lo, w);
                }
                let y = self.ext(x, lo, xw - lo);
                return self.zext(y, w);
            }
            N::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.ext(x, lo, w);
                }
                if lo == 0 {
                    return self.sext(x, w);
                }
            }
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw {
                    return self.ext(l, lo, w);
                }
                if lo >= lw {
                    return self.ext(h, lo - lw, w);
                }
                let l2 = self.ext(l, lo, lw - lo);
                let h2 = self.ext(h, 0, w - (lw - lo));
                return self.concat(h2, l2);
            }
            N::Ite(c, x, y) if (self.is_c(x).is_some() || self.is_c(y).is_some()) => {
                let x2 = self.ext(x, lo, w);
                let y2 = self.ext(y, lo, w);
                return self.ite(c, x2, y2);
            }
            N::Bin(op, x, y) if lo == 0 && matches!(op, B::And | B::Or | B::Xor | B::Add | B::Sub) => {
                let x2 = self.ext(x, 0, w);
                let y2 = self.ext(y, 0, w);
                return self.bin(op, x2, y2);
            }
            N::Bin(op, x, y) if matches!(op, B::And | B::Or | B::Xor) => {
                let x2 = self.ext(x, lo, w);
                let y2 = self.ext(y, lo, w);
                return self.bin(op, x2, y2);
            }
            N::FBits(f) if lo == 63 && w == 1 => return self.fsign(f),
            _ => {}
        }
        self.mkr(N::Ext(a, lo), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.is_c(h), self.is_c(l)) {
            return self.c((x << lw) | y, w);
        }
        if self.is_c(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (N::Ext(x, xl), N::Ext(y, yl)) = (self.node(h), self.node(l)) {
            if x == y && xl == yl + lw {
                return self.ext(x, yl, w);
            }
        }
        // concat(h, concat(ext..)) reassembly handled by callers
        self.mkr(N::Concat(h, l), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.is_c(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == FW {
            return self.fite(c, a, b);
        }
        debug_assert_eq!(w, self.w(b));
        if let Some(nc) = self.not_nosimp(c) {
            return self.ite(nc, b, a);
        }
        if w == 1 {
            match (self.is_c(a), self.is_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let N::Ite(c2, x, y) = self.node(b) {
            if x == a {
                let cc = self.or(c, c2);
                return self.ite(cc, a, y);
            }
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        if let N::Ite(c2, x, _) = self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        self.mkr(N::Ite(c, a, b), w)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.cmp(Cmp::Eq, a, b)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn cmp(&mut self, op: Cmp, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if a == b {
            return match op {
                Cmp::Eq | Cmp::Ule | Cmp::Sle => self.tru,
                _ => self.fls,
            };
        }
        let r = match op {
            Cmp::Eq => {
                if ia.umin == ia.umax && ib.umin == ib.umax && ia.umin == ib.umin {
                    Some(true)
                } else if ia.umax < ib.umin || ib.umax < ia.umin || ia.smax < ib.smin || ib.smax < ia.smin {
                    Some(false)
                } else {
                    None
                }
            }
            Cmp::Ult => {
                if ia.umax < ib.umin {
                    Some(true)
                } else if ia.umin >= ib.umax {
                    Some(false)
                } else {
                    None
                }
            }
            Cmp::Ule => {
                if ia.umax <= ib.umin {
                    Some(true)
                } else if ia.umin > ib.umax {
                    Some(false)
                } else {
                    None
                }
            }
            Cmp::Slt => {
                if ia.smax < ib.smin {
                    Some(true)
                } else if ia.smin >= ib.smax {
                    Some(false)
                } else {
                    None
                }
            }
            Cmp::Sle => {
                if ia.smax <= ib.smin {
                    Some(true)
                } else if ia.smin > ib.smax {
                    Some(false)
                } else {
                    None
                }
            }
        };
        if let Some(r) = r {
            return self.b(r);
        }
        let (ca, cb) = (self.is_c(a), self.is_c(b));
        if op == Cmp::Eq {
            if ca.is_some() && cb.is_none() {
                return self.cmp(op, b, a);
            }
            if cb.is_none() && a > b {
                return self.cmp(op, b, a);
            }
            if w == 1 {
                if let Some(v) = cb {
                    return if v == 1 { a } else { self.not(a) };
                }
                let x = self.bin(B::Xor, a, b);
                return self.not(x);
            }
        } else if w == 1 && matches!(op, Cmp::Ult | Cmp::Ule) {
            let na = self.not(a);
            return if op == Cmp::Ult { self.and(na, b) } else { self.or(na, b) };
        }
        // ite with constant arms against a constant
        if cb.is_some() {
            if let N::Ite(c, x, y) = self.node(a) {
                if self.is_c(x).is_some() || self.is_c(y).is_some() {
                    let x2 = self.cmp(op, x, b);
                    let y2 = self.cmp(op, y, b);
                    return self.ite(c, x2, y2);
                }
            }
        }
        if ca.is_some() {
            if let N::Ite(c, x, y) = self.node(b) {
                if self.is_c(x).is_some() || self.is_c(y).is_some() {
                    let x2 = self.cmp(op, a, x);
                    let y2 = self.cmp(op, a, y);
                    return self.ite(c, x2, y2);
                }
            }
        }
        match (op, self.node(a), self.node(b)) {
            (Cmp::Eq, N::FBits(x), N::FBits(y)) => return self.fbits_eq(x, y),
            (Cmp::Eq, N::FBits(x), N::C(v)) => {
                let y = self.mk(N::FConst(v as u64), FW);
                return self.fbits_eq(x, y);
            }
            (Cmp::Eq, N::ZExt(x), N::C(v)) => {
                let xw = self.w(x);
                if v > mask(xw) {
                    return self.fls;
                }
                let c = self.c(v, xw);
                return self.cmp(op, x, c);
            }
            (Cmp::Eq, N::ZExt(x), N::ZExt(y)) if self.w(x) == self.w(y) => return self.cmp(op, x, y),
            (Cmp::Ult, N::ZExt(x), N::ZExt(y)) | (Cmp::Ule, N::ZExt(x), N::ZExt(y)) if self.w(x) == self.w(y) => return self.cmp(op, x, y),
            (Cmp::Slt, N::ZExt(x), N::ZExt(y)) if self.w(x) == self.w(y) => return self.cmp(Cmp::Ult, x, y),
            (Cmp::Sle, N::ZExt(x), N::ZExt(y)) if self.w(x) == self.w(y) => return self.cmp(Cmp::Ule, x, y),
            (_, N::SExt(x), N::SExt(y)) if self.w(x) == self.w(y) && matches!(op, Cmp::Eq | Cmp::Slt | Cmp::Sle) => return self.cmp(op, x, y),
            (_, N::SExt(x), N::C(v)) if matches!(op, Cmp::Eq | Cmp::Slt | Cmp::Sle) => {
                let xw = self.w(x);
                let s = sext128(v, w);
                if s >= smin_w(xw) && s <= smax_w(xw) {
                    let c = self.ci(s, xw);
                    return self.cmp(op, x, c);
                }
            }
            (_, N::C(v), N::SExt(x)) if matches!(op, Cmp::Slt | Cmp::Sle) => {
                let xw = self.w(x);
                let s = sext128(v, w);
                if s >= smin_w(xw) && s <= smax_w(xw) {
                    let c = self.ci(s, xw);
                    return self.cmp(op, c, x);
                }
            }
            (Cmp::Ult, N::ZExt(x), N::C(v)) | (Cmp::Ule, N::ZExt(x), N::C(v)) => {
                let xw = self.w(x);
                if v <= mask(xw) {
                    let c = self.c(v, xw);
                    return self.cmp(op, x, c);
                }
            }
            (Cmp::Ult, N::C(v), N::ZExt(x)) | (Cmp::Ule, N::C(v), N::ZExt(x)) => {
                let xw = self.w(x);
                if v <= mask(xw) {
                    let c = self.c(v, xw);
                    return self.cmp(op, c, x);
                }
            }
            (Cmp::Eq, N::Bin(B::Add, x, c), N::C(v)) if self.is_c(c).is_some() => {
                let c0 = self.is_c(c).unwrap();
                let nc = self.c(v.wrapping_sub(c0), w);
                return self.cmp(op, x, nc);
            }
            (Cmp::Eq, N::Bin(B::Xor, x, c), N::C(v)) if self.is_c(c).is_some() => {
                let c0 = self.is_c(c).unwrap();
                let nc = self.c(v ^ c0, w);
                return self.cmp(op, x, nc);
            }
            // x - y == 0
            (Cmp::Eq, N::Bin(B::Sub, x, y), N::C(0)) => return self.cmp(op, x, y),
            (Cmp::Slt, N::FBits(f), N::C(0)) => return self.fsign(f),
            (Cmp::Slt, N::Bin(B::Xor, x, y), N::C(0)) if matches!(self.node(x), N::FBits(_)) && matches!(self.node(y), N::FBits(_)) => {
                let p = self.cmp(Cmp::Slt, x, b);
                let q = self.cmp(Cmp::Slt, y, b);
                return self.bin(B::Xor, p, q);
            }
            (Cmp::Slt, N::C(v), N::Bin(B::Xor, x, y)) if v == mask(64) && matches!(self.node(x), N::FBits(_)) && matches!(self.node(y), N::FBits(_)) => {
                let z = self.c(0, 64);
                let p = self.cmp(Cmp::Slt, x, z);
                let q = self.cmp(Cmp::Slt, y, z);
                let r = self.bin(B::Xor, p, q);
                return self.not(r);
            }
            (Cmp::Slt, N::C(v), N::FBits(f)) if v == mask(64) => {
                let s = self.fsign(f);
                return self.not(s);
            }
            // (bits(x) - bits(y) + c1) <u c2   with tiny c1, c2: ULP comparison
            (Cmp::Ult, N::Bin(B::Add, d, c1), N::C(c2)) if w == 64 => {
                if let (Some(c1), N::Bin(B::Sub, p, q)) = (self.is_c(c1), self.node(d)) {
                    if c1 < 8 && c2 <= 8 + c1 && c2 > c1 {
                        if let Some(r) = self.ulps(p, q) {
                            return r;
                        }
                    }
                }
                // bits(x) + const form when the other operand is a constant
                if let (Some(c1), N::FBits(_)) = (self.is_c(c1), self.node(d)) {
                    // bits(x) + c1 <u c2  <=>  exists j<c2: bits(x) == j - c1
                    if c2 <= 16 {
                        let mid = (0u64.wrapping_sub(c1 as u64)).wrapping_add(4);
                        if c2 == 9 {
                            let q = self.c(mid as u128, 64);
                            if let Some(r) = self.ulps(d, q) {
                                return r;
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        self.mkr(N::Cmp(op, a, b), 1)
    }
    /// "within a few ulps" for two 64-bit patterns of dyadic values: exact when both are
    /// multiples of 2^-k with magnitude < 2^44 * 2^-k (distinct values are > 8 patterns apart).
    fn ulps(&mut self, p: E, q: E) -> Option<E> {
        let fp = self.bits_to_f(p)?;
        let fq = self.bits_to_f(q)?;
        let (n1, k1, z1) = self.as_dy(fp)?;
        let (n2, k2, z2) = self.as_dy(fq)?;
        let k = k1.max(k2);
        let a = self.scale(n1, (k - k1) as u32, 60)?;
        let b = self.scale(n2, (k - k2) as u32, 60)?;
        let lim = 1i128 << 44;
        let (i, j) = (self.info[a as usize], self.info[b as usize]);
        if i.smin < -lim || i.smax > lim || j.smin < -lim || j.smax > lim {
            return None;
        }
        let e = self.seq(a, b);
        let zx = self.bin(B::Xor, z1, z2);
        let zn = self.not(zx);
        Some(self.and(e, zn))
    }
    fn bits_to_f(&mut self, p: E) -> Option<E> {
        match self.node(p) {
            N::FBits(f) => Some(f),
            N::C(v) => {
                let f = f64::from_bits(v as u64);
                if f.is_finite() { Some(self.fc(f)) } else { None }
            }
            _ => None,
        }
    }
    // ---------------------------------------------------------------- floats
    pub fn fc(&mut self, f: f64) -> E {
        self.mk(N::FConst(f.to_bits()), FW)
    }
    pub fn as_dy(&mut self, f: E) -> Option<(E, i16, E)> {
        match self.node(f) {
            N::FDy(n, k, z) => Some((n, k, z)),
            N::FConst(b) => {
                let (m, k, z) = dyadic(b)?;
                let w = need_bits(m, m);
                if w > 60 {
                    return None;
                }
                let n = self.ci(m, w.max(2));
                let z = self.b(z);
                Some((n, k, z))
            }
            _ => None,
        }
    }
    /// f64 value n * 2^-k; n must be within +-2^53
    pub fn fdy(&mut self, n: E, k: i16, nz: E) -> E {
        // normalise width to the range
        let i = self.info[n as usize];
        let need = need_bits(i.smin, i.smax).max(2);
        let n = if need < i.w { self.ext(n, 0, need) } else { n };
        if let (Some(v), Some(z)) = (self.is_c(n), self.is_c(nz)) {
            let s = sext128(v, self.w(n));
            return self.fc(undyadic(s, k, z == 1));
        }
        // nz only matters when n can be 0
        let i = self.info[n as usize];
        let nz = if i.smin > 0 || i.smax < 0 { self.fls } else { nz };
        self.mk(N::FDy(n, k, nz), FW)
    }
    fn scale(&mut self, n: E, sh: u32, maxw: u32) -> Option<E> {
        if sh == 0 {
            return Some(n);
        }
        let w = self.w(n) as u32 + sh;
        if w > maxw || sh > 100 {
            if self.info[n as usize].smin == 0 && self.info[n as usize].smax == 0 {
                return Some(n);
            }
            return None;
        }
        let c = self.ci(1i128 << sh, sh as u8 + 2);
        Some(self.sbin(B::Mul, n, c))
    }
    // ---------------------------------------------------------------- polynomials
    fn poly_add(a: &Poly, b: &Poly, kb: i128) -> Option<Poly> {
        let mut r = Vec::with_capacity(a.0.len() + b.0.len());
        let (mut i, mut j) = (0, 0);
        while i < a.0.len() || j < b.0.len() {
            let o = if i >= a.0.len() {
                std::cmp::Ordering::Greater
            } else if j >= b.0.len() {
                std::cmp::Ordering::Less
            } else {
                a.0[i].0.cmp(&b.0[j].0)
            };
            match o {
                std::cmp::Ordering::Less => {
                    r.push(a.0[i].clone());
                    i += 1
                }
                std::cmp::Ordering::Greater => {
                    r.push((b.0[j].0.clone(), b.0[j].1.checked_mul(kb)?));
                    j += 1
                }
                _ => {
                    let c = a.0[i].1.checked_add(b.0[j].1.checked_mul(kb)?)?;
                    if c != 0 {
                        r.push((a.0[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1
                }
            }
        }
        if r.iter().any(|t| t.1.abs() > 1i128 << 90) {
            return None;
        }
        Some(Poly(r))
    }
    fn poly_mul(a: &Poly, b: &Poly) -> Option<Poly> {
        if a.0.len() * b.0.len() > 100 {
            return None;
        }
        let mut r = Poly(vec![]);
        for (m, c) in &a.0 {
            let mut t = Vec::new();
            for (n, d) in &b.0 {
                let mut v = m.clone();
                v.extend_from_slice(n);
                v.sort();
                if v.len() > 8 {
                    return None;
                }
                t.push((v, c.checked_mul(*d)?));
            }
            t.sort();
            r = Self::poly_add(&r, &Poly(t), 1)?;
        }
        if r.0.len() > 40 {
            return None;
        }
        Some(r)
    }
    /// the signed value of `e` as a polynomial
    fn poly(&mut self, e: E) -> Rc<Poly> {
        if let Some(p) = self.polys.get(&e) {
            return p.clone();
        }
        let i = self.info[e as usize];
        let w = i.w;
        let r = 'x: {
            match self.node(e) {
                N::C(v) => {
                    let s = sext128(v, w);
                    if s.abs() < 1i128 << 90 {
                        break 'x Some(Poly(if s == 0 { vec![] } else { vec![(vec![], s)] }));
                    }
                }
                N::SExt(x) => break 'x Some((*self.poly(x)).clone()),
                N::ZExt(x) if self.info[x as usize].smin >= 0 && self.w(x) > 1 => break 'x Some((*self.poly(x)).clone()),
                N::Ext(x, 0) if w > 1 => {
                    let j = self.info[x as usize];
                    if j.smin >= smin_w(w) && j.smax <= smax_w(w) {
                        break 'x Some((*self.poly(x)).clone());
                    }
                }
                N::Bin(op, a, b) if w > 1 && w <= 126 && matches!(op, B::Add | B::Sub | B::Mul) => {
                    let (x, y) = (self.info[a as usize], self.info[b as usize]);
                    if let Some((lo, hi)) = Self::range(op, &x, &y) {
                        if lo >= smin_w(w) && hi <= smax_w(w) {
                            let p = self.poly(a);
                            let q = self.poly(b);
                            break 'x match op {
                                B::Add => Self::poly_add(&p, &q, 1),
                                B::Sub => Self::poly_add(&p, &q, -1),
                                _ => Self::poly_mul(&p, &q),
                            };
                        }
                    }
                }
                _ => {}
            }
            None
        };
        let r = Rc::new(r.unwrap_or_else(|| Poly(vec![(vec![e], 1)])));
        self.polys.insert(e, r.clone());
        r
    }
    fn range(op: B, x: &Info, y: &Info) -> Option<(i128, i128)> {
        Some(match op {
            B::Add => (x.smin.checked_add(y.smin)?, x.smax.checked_add(y.smax)?),
            B::Sub => (x.smin.checked_sub(y.smax)?, x.smax.checked_sub(y.smin)?),
            _ => {
                let c = [x.smin.checked_mul(y.smin)?, x.smin.checked_mul(y.smax)?, x.smax.checked_mul(y.smin)?, x.smax.checked_mul(y.smax)?];
                (*c.iter().min().unwrap(), *c.iter().max().unwrap())
            }
        })
    }
    /// narrow a bit-vector to the width its range needs
    fn narrow(&mut self, e: E) -> E {
        let i = self.info[e as usize];
        let need = need_bits(i.smin, i.smax).max(2);
        if need < i.w {
            if let N::SExt(x) = self.node(e) {
                return self.narrow(x);
            }
            return self.ext(e, 0, need);
        }
        e
    }
    /// the canonical expression of a polynomial
    fn unpoly(&mut self, p: &Poly) -> Option<E> {
        if p.0.is_empty() {
            return Some(self.c(0, 2));
        }
        let mut acc: Option<E> = None;
        // a positive term first, the constant last
        let n = p.0.len();
        let mut ord: Vec<usize> = (0..n).filter(|&i| !p.0[i].0.is_empty()).collect();
        if let Some(k) = ord.iter().position(|&i| p.0[i].1 > 0) {
            let x = ord.remove(k);
            ord.insert(0, x);
        }
        if p.0[0].0.is_empty() {
            ord.push(0);
        }
        for i in ord {
            let (m, c) = &p.0[i];
            let mut t: Option<E> = None;
            for &a in m {
                t = Some(match t {
                    None => a,
                    Some(x) => self.raw_sbin(B::Mul, x, a)?,
                });
            }
            let neg = *c < 0 && acc.is_some();
            let c = if neg { -*c } else { *c };
            let t = match t {
                None => self.ci(c, need_bits(c, c).max(2)),
                Some(x) if c == 1 => x,
                Some(x) => {
                    let k = self.ci(c, need_bits(c, c).max(2));
                    self.raw_sbin(B::Mul, x, k)?
                }
            };
            acc = Some(match acc {
                None => t,
                Some(x) => self.raw_sbin(if neg { B::Sub } else { B::Add }, x, t)?,
            });
        }
        acc
    }
    fn raw_sbin(&mut self, op: B, a: E, b: E) -> Option<E> {
        // signed op without overflow: extend first
        let a = self.narrow(a);
        let b = self.narrow(b);
        let (i, j) = (self.info[a as usize], self.info[b as usize]);
        let (lo, hi) = Self::range(op, &i, &j)?;
        let w = need_bits(lo, hi).max(i.w).max(j.w);
        if w > 120 {
            return None;
        }
        let x = self.sext(a, w);
        let y = self.sext(b, w);
        Some(self.bin(op, x, y))
    }
    fn refine(&mut self, e: E, lo: i128, hi: i128) {
        let i = &mut self.info[e as usize];
        if i.w <= 1 || i.w == FW {
            return;
        }
        i.smin = i.smin.max(lo);
        i.smax = i.smax.min(hi);
        if i.smin >= 0 {
            i.umin = i.umin.max(i.smin as u128);
            i.umax = i.umax.min(i.smax as u128);
        }
    }
    fn sbin(&mut self, op: B, a: E, b: E) -> E {
        let (i, j) = (self.info[a as usize], self.info[b as usize]);
        let (lo, hi) = Self::range(op, &i, &j).unwrap();
        let (p, q) = (self.poly(a), self.poly(b));
        let r = match op {
            B::Add => Self::poly_add(&p, &q, 1),
            B::Sub => Self::poly_add(&p, &q, -1),
            _ => Self::poly_mul(&p, &q),
        };
        if let Some(r) = r {
            if let Some(e) = self.unpoly(&r) {
                if self.is_c(e).is_none() {
                    self.refine(e, lo, hi);
                    let e2 = self.narrow(e);
                    if e2 != e {
                        self.polys.insert(e2, Rc::new(r.clone()));
                    }
                    self.polys.insert(e, Rc::new(r));
                    return e2;
                }
                return e;
            }
        }
        let w = need_bits(lo, hi).max(i.w).max(j.w);
        let x = self.sext(a, w);
        let y = self.sext(b, w);
        self.bin(op, x, y)
    }
    fn seq(&mut self, a: E, b: E) -> E {
        self.scmp(Cmp::Eq, a, b)
    }
    /// signed comparison of integers
    fn scmp(&mut self, op: Cmp, a: E, b: E) -> E {
        if let Some(r) = self.scmp_poly(op, a, b) {
            return r;
        }
        let w = self.w(a).max(self.w(b));
        let x = self.sext(a, w);
        let y = self.sext(b, w);
        self.cmp(op, x, y)
    }
    fn scmp_poly(&mut self, op: Cmp, a: E, b: E) -> Option<E> {
        let (p, q) = (self.poly(a), self.poly(b));
        let d = Self::poly_add(&p, &q, -1)?;
        // ranges of the operands
        let (i, j) = (self.info[a as usize], self.info[b as usize]);
        let (lo, hi) = Self::range(B::Sub, &i, &j)?;
        match op {
            Cmp::Eq if lo > 0 || hi < 0 => return Some(self.fls),
            Cmp::Slt if hi < 0 => return Some(self.tru),
            Cmp::Slt if lo >= 0 => return Some(self.fls),
            Cmp::Sle if hi <= 0 => return Some(self.tru),
            Cmp::Sle if lo > 0 => return Some(self.fls),
            _ => {}
        }
        let mut c0 = 0;
        let mut g: u128 = 0;
        for (m, c) in &d.0 {
            if m.is_empty() {
                c0 = *c;
            } else {
                let (mut x, mut y) = (g, c.unsigned_abs());
                while y != 0 {
                    let t = x % y;
                    x = y;
                    y = t;
                }
                g = x;
            }
        }
        if g == 0 {
            return Some(self.b(match op {
                Cmp::Eq => c0 == 0,
                Cmp::Slt => c0 < 0,
                Cmp::Sle => c0 <= 0,
                _ => return None,
            }));
        }
        let g = g as i128;
        if op == Cmp::Eq && c0 % g != 0 {
            return Some(self.fls);
        }
        // S == k,  or  S < k
        let mut k = match op {
            Cmp::Eq => -c0 / g,
            Cmp::Slt => -(c0.div_euclid(g)),
            Cmp::Sle => (-c0).div_euclid(g) + 1,
            _ => return None,
        };
        let mut terms: Vec<(Vec<E>, i128)> = d.0.iter().filter(|t| !t.0.is_empty()).map(|t| (t.0.clone(), t.1 / g)).collect();
        let mut neg = false;
        if terms[0].1 < 0 {
            for t in terms.iter_mut() {
                t.1 = -t.1;
            }
            k = -k;
            if op != Cmp::Eq {
                // -S' < k  <=>  S' > -k  <=>  !(S' < -k + 1)
                k += 1;
                neg = true;
            }
        }
        // range of S
        let mut l = Poly(vec![]);
        let mut r = Poly(vec![]);
        if k > 0 {
            r.0.push((vec![], k));
        } else if k < 0 {
            l.0.push((vec![], -k));
        }
        for (m, c) in terms {
            if c > 0 { l.0.push((m, c)) } else { r.0.push((m, -c)) }
        }
        // a lone constant reads better on the right
        if r.0.is_empty() && k < 0 && l.0.len() == 2 {
            l.0.remove(0);
            r.0.push((vec![], k));
        }
        let x = self.unpoly(&l)?;
        let y = self.unpoly(&r)?;
        let w = self.w(x).max(self.w(y));
        let x = self.sext(x, w);
        let y = self.sext(y, w);
        let e = self.cmp(if op == Cmp::Eq { Cmp::Eq } else { Cmp::Slt }, x, y);
        Some(if neg { self.not(e) } else { e })
    }
    /// division of every coefficient
    fn poly_div(&mut self, n: E, c: i128) -> Option<E> {
        let p = self.poly(n);
        if p.0.is_empty() || p.0.iter().any(|t| t.1 % c != 0) {
            return None;
        }
        let q = Poly(p.0.iter().map(|t| (t.0.clone(), t.1 / c)).collect());
        self.unpoly(&q)
    }
    fn fits53(&self, n: E) -> bool {
        let i = self.info[n as usize];
        i.smin >= -(1i128 << 53) && i.smax <= (1i128 << 53)
    }
    fn is_zero(&mut self, n: E) -> E {
        let z = self.c(0, 2);
        self.scmp(Cmp::Eq, n, z)
    }
    fn is_neg(&mut self, n: E) -> E {
        let z = self.c(0, 2);
        self.scmp(Cmp::Slt, n, z)
    }
    pub fn fsign(&mut self, f: E) -> E {
        if let Some((n, _, z)) = self.as_dy(f) {
            let neg = self.is_neg(n);
            let zz = self.is_zero(n);
            let nz = self.and(zz, z);
            return self.or(neg, nz);
        }
        if let N::FConst(b) = self.node(f) {
            return self.b(b >> 63 == 1);
        }
        let b = self.fbits(f);
        self.mkr(N::Ext(b, 63), 1)
    }
    fn fbits_eq(&mut self, x: E, y: E) -> E {
        if let (Some((n1, k1, z1)), Some((n2, k2, z2))) = (self.as_dy(x), self.as_dy(y)) {
            let k = k1.max(k2);
            if let (Some(a), Some(b)) = (self.scale(n1, (k - k1) as u32, 100), self.scale(n2, (k - k2) as u32, 100)) {
                let e = self.seq(a, b);
                let az = self.is_zero(n1);
                let zx = self.bin(B::Xor, z1, z2);
                let bad = self.and(az, zx);
                let ok = self.not(bad);
                return self.and(e, ok);
            }
        }
        let a = self.fbits(x);
        let b = self.fbits(y);
        if a == b {
            return self.tru;
        }
        self.mkr(N::Cmp(Cmp::Eq, a.min(b), a.max(b)), 1)
    }
    pub fn fbits(&mut self, f: E) -> E {
        match self.node(f) {
            N::FConst(b) => self.c(b as u128, 64),
            N::FFromBits(b) => b,
            _ => self.mk(N::FBits(f), 64),
        }
    }
    pub fn ffrom_bits(&mut self, b: E) -> E {
        match self.node(b) {
            N::FBits(f) => f,
            N::C(v) => self.mk(N::FConst(v as u64), FW),
            N::Ite(c, x, y) => {
                let fx = self.ffrom_bits(x);
                let fy = self.ffrom_bits(y);
                self.fite(c, fx, fy)
            }
            _ => self.mk(N::FFromBits(b), FW),
        }
    }
    pub fn fite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.is_c(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let (Some((n1, k1, z1)), Some((n2, k2, z2))) = (self.as_dy(a), self.as_dy(b)) {
            let k = k1.max(k2);
            if let (Some(x), Some(y)) = (self.scale(n1, (k - k1) as u32, 60), self.scale(n2, (k - k2) as u32, 60)) {
                let w = self.w(x).max(self.w(y));
                let x = self.sext(x, w);
                let y = self.sext(y, w);
                let n = self.ite(c, x, y);
                let z = self.ite(c, z1, z2);
                if self.fits53(n) {
                    return self.fdy(n, k, z);
                }
            }
        }
        self.mk(N::FIte(c, a, b), FW)
    }
    /// `None` means: the result is not exactly representable in the dyadic form
    pub fn fbin_exact(&mut self, op: FB, a: E, b: E) -> Option<E> {
        if let (N::FConst(x), N::FConst(y)) = (self.node(a), self.node(b)) {
            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
            let r = match op {
                FB::Add => x + y,
                FB::Sub => x - y,
                FB::Mul => x * y,
                FB::Div => x / y,
            };
            return Some(self.fc(r));
        }
        let (n1, k1, z1) = self.as_dy(a)?;
        let (n2, k2, z2) = self.as_dy(b)?;
        match op {
            FB::Add | FB::Sub => {
                let k = k1.max(k2);
                let x = self.scale(n1, (k - k1) as u32, 60)?;
                let y = self.scale(n2, (k - k2) as u32, 60)?;
                let n = self.sbin(if op == FB::Add { B::Add } else { B::Sub }, x, y);
                if !self.fits53(n) {
                    return None;
                }
                // -0 only from (-0) + (-0)
                let z2b = if op == FB::Add { z2 } else { self.not(z2) };
                let zb0 = self.is_zero(n2);
                let za0 = self.is_zero(n1);
                let za = self.and(z1, za0);
                let zb = self.and(z2b, zb0);
                let nz = self.and(za, zb);
                Some(self.fdy(n, k, nz))
            }
            FB::Mul => {
                let n = self.sbin(B::Mul, n1, n2);
                if !self.fits53(n) {
                    return None;
                }
                let s1 = self.fsign(a);
                let s2 = self.fsign(b);
                let sx = self.bin(B::Xor, s1, s2);
                let z = self.is_zero(n);
                let nz = self.and(z, sx);
                Some(self.fdy(n, k1 + k2, nz))
            }
            FB::Div => {
                // by a constant +-2^j, or by a constant dividing a constant factor of n1
                let c = sext128(self.is_c(n2)?, self.w(n2));
                if c == 0 {
                    return None;
                }
                if c == 1 || c == -1 {
                    // a * 2^k2 * sign
                    let kk = -(k2 as i32);
                    let f = self.fc((c as f64) * (2f64).powi(-kk));
                    return self.fbin_exact(FB::Mul, a, f);
                }
                // every coefficient divisible by the odd part
                let extra = c.trailing_zeros() as i16;
                let cc = c >> extra;
                if let Some(n) = self.poly_div(n1, cc) {
                    let s1 = self.fsign(a);
                    let s2 = self.fsign(b);
                    let sx = self.bin(B::Xor, s1, s2);
                    let z = self.is_zero(n);
                    let nz = self.and(z, sx);
                    return Some(self.fdy(n, k1 - k2 + extra, nz));
                }
                if let Some(v) = self.is_c(n1) {
                    if v == 0 {
                        let s1 = self.fsign(a);
                        let s2 = self.fsign(b);
                        let sx = self.bin(B::Xor, s1, s2);
                        let zero = self.c(0, 2);
                        return Some(self.fdy(zero, 0, sx));
                    }
                }
                None
            }
        }
    }
    pub fn fbin(&mut self, op: FB, a: E, b: E) -> E {
        if let Some(r) = self.fbin_exact(op, a, b) {
            return r;
        }
        // x / x with x != 0 etc. are left to the solver
        self.mk(N::FBin(op, a, b), FW)
    }
    pub fn fun(&mut self, op: FU, a: E) -> E {
        if let N::FConst(b) = self.node(a) {
            let x = f64::from_bits(b);
            let r = match op {
                FU::Neg => -x,
                FU::Abs => x.abs(),
                FU::Sqrt => x.sqrt(),
                FU::Round => x.round(),
                FU::Floor => x.floor(),
                FU::Ceil => x.ceil(),
                FU::Trunc => x.trunc(),
            };
            return self.fc(r);
        }
        if let Some((n, k, z)) = self.as_dy(a) {
            match op {
                FU::Neg => {
                    let zero = self.c(0, 2);
                    let m = self.sbin(B::Sub, zero, n);
                    let n0 = self.is_zero(n);
                    let nz0 = self.not(z);
                    let nz = self.and(n0, nz0);
                    return self.fdy(m, k, nz);
                }
                FU::Abs => {
                    let zero = self.c(0, 2);
                    let m = self.sbin(B::Sub, zero, n);
                    let neg = self.is_neg(n);
                    let w = self.w(m).max(self.w(n));
                    let n2 = self.sext(n, w);
                    let m2 = self.sext(m, w);
                    let r = self.ite(neg, m2, n2);
                    // tighten the range knowledge: |n| >= 0
                    let r = self.nonneg(r);
                    let f = self.fls;
                    return self.fdy(r, k, f);
                }
                FU::Sqrt => {
                    if let Some(r) = self.sqrt_square(n, k) {
                        return r;
                    }
                }
                FU::Round | FU::Floor | FU::Ceil | FU::Trunc => {
                    if k <= 0 {
                        return a;
                    }
                    // exact multiple of 2^k?
                    let kk = k as u32;
                    if kk < 80 {
                        let p = self.poly(n);
                        if p.0.iter().all(|t| t.1.trailing_zeros() >= kk) {
                            return a;
                        }
                    }
                    if kk > 60 {
                        return self.mk(N::FUn(op, a), FW);
                    }
                    let i = self.info[n as usize];
                    let w = (need_bits(i.smin, i.smax).max(i.w)).max(kk as u8 + 1) + 2;
                    let x = self.sext(n, w);
                    let sh = self.c(kk as u128, w);
                    let half = self.c(1u128 << (kk - 1), w);
                    let ones = self.c((1u128 << kk) - 1, w);
                    let neg = self.is_neg(x);
                    let zero = self.c(0, w);
                    let mx = self.bin(B::Sub, zero, x);
                    let r = match op {
                        FU::Round => {
                            let p = self.bin(B::Add, x, half);
                            let p = self.bin(B::AShr, p, sh);
                            let q = self.bin(B::Add, mx, half);
                            let q = self.bin(B::AShr, q, sh);
                            let q = self.bin(B::Sub, zero, q);
                            self.ite(neg, q, p)
                        }
                        FU::Floor => self.bin(B::AShr, x, sh),
                        FU::Ceil => {
                            let p = self.bin(B::Add, x, ones);
                            self.bin(B::AShr, p, sh)
                        }
                        _ => {
                            let p = self.bin(B::AShr, x, sh);
                            let q = self.bin(B::AShr, mx, sh);
                            let q = self.bin(B::Sub, zero, q);
                            self.ite(neg, q, p)
                        }
                    };
                    // rounding to zero from a negative value gives -0
                    let s = self.fsign(a);
                    let z0 = self.is_zero(r);
                    let nz = self.and(z0, s);
                    return self.fdy(r, 0, nz);
                }
            }
        }
        self.mk(N::FUn(op, a), FW)
    }
    /// re-encode a value known to be non-negative so that the range shows it
    fn nonneg(&mut self, r: E) -> E {
        let w = self.w(r);
        if self.info[r as usize].smin >= 0 {
            return r;
        }
        let x = self.ext(r, 0, w - 1);
        self.zext(x, w)
    }
    fn sqrt_square(&mut self, n: E, k: i16) -> Option<E> {
        // sqrt(x*x * 2^-k), k even; also c^2 * x^2
        if k % 2 != 0 {
            return None;
        }
        let p = self.poly(n);
        // the root of a perfect square: square terms with signs from the cross terms
        let mut root: Vec<(Vec<E>, i128)> = vec![];
        for (m, c) in &p.0 {
            if m.len() % 2 == 0 && (0..m.len() / 2).all(|i| m[2 * i] == m[2 * i + 1]) && *c > 0 {
                let s = (*c as f64).sqrt().round() as i128;
                if s * s == *c {
                    root.push(((0..m.len() / 2).map(|i| m[2 * i]).collect(), s));
                }
            }
        }
        if root.is_empty() || root.len() > 4 {
            return None;
        }
        root.sort();
        for signs in 0..1u32 << (root.len() - 1) {
            let mut q = Poly(root.clone());
            for (i, t) in q.0.iter_mut().enumerate() {
                if i > 0 && (signs >> (i - 1)) & 1 == 1 {
                    t.1 = -t.1
                }
            }
            if Self::poly_mul(&q, &q).map_or(false, |r| r == *p) {
                let x = self.unpoly(&q)?;
                let f = self.fls;
                let v = self.fdy(x, k / 2, f);
                return Some(self.fun(FU::Abs, v));
            }
        }
        None
    }
    pub fn fcmp(&mut self, op: FC, a: E, b: E) -> E {
        if let (N::FConst(x), N::FConst(y)) = (self.node(a), self.node(b)) {
            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
            return self.b(match op {
                FC::Eq => x == y,
                FC::Lt => x < y,
                FC::Le => x <= y,
            });
        }
        if let (Some((n1, k1, _)), Some((n2, k2, _))) = (self.as_dy(a), self.as_dy(b)) {
            let k = k1.max(k2);
            if let (Some(x), Some(y)) = (self.scale(n1, (k - k1) as u32, 120), self.scale(n2, (k - k2) as u32, 120)) {
                let c = match op {
                    FC::Eq => Cmp::Eq,
                    FC::Lt => Cmp::Slt,
                    FC::Le => Cmp::Sle,
                };
                return self.scmp(c, x, y);
            }
            // constant far out of range: decide by range
            let (i, j) = (self.info[n1 as usize], self.info[n2 as usize]);
            let f = |v: i128, k: i16| (v as f64) * 2f64.powi(-(k as i32));
            let (alo, ahi, blo, bhi) = (f(i.smin, k1), f(i.smax, k1), f(j.smin, k2), f(j.smax, k2));
            if ahi < blo {
                return self.b(op != FC::Eq);
            }
            if alo > bhi {
                return self.fls;
            }
            // non-dyadic-aligned constant such as 1e-9 or 0.1 against n*2^-k:
            // n*2^-k < c  <=>  n < ceil(c*2^k)  (c not a multiple of 2^-k)
            if let Some(cv) = self.fconst(b) {
                if let Some(r) = self.cmp_const(op, n1, k1, cv, false) {
                    return r;
                }
            }
            if let Some(cv) = self.fconst(a) {
                if let Some(r) = self.cmp_const(op, n2, k2, cv, true) {
                    return r;
                }
            }
        }
        // infinities / nan constants
        for (x, y, swapped) in [(a, b, false), (b, a, true)] {
            if let (N::FConst(bits), true) = (self.node(y), matches!(self.node(x), N::FDy(..))) {
                let c = f64::from_bits(bits);
                if c.is_nan() {
                    return self.fls;
                }
                if c.is_infinite() {
                    let x_lt = c > 0.0;
                    return match op {
                        FC::Eq => self.fls,
                        _ => self.b(if swapped { !x_lt } else { x_lt }),
                    };
                }
                // finite, too wide for as_dy
                let (n, k, _) = self.as_dy(x).unwrap();
                if let Some(r) = self.cmp_const(op, n, k, c, swapped) {
                    return r;
                }
            }
        }
        if let N::FIte(c, x, y) = self.node(a) {
            let p = self.fcmp(op, x, b);
            let q = self.fcmp(op, y, b);
            return self.ite(c, p, q);
        }
        if let N::FIte(c, x, y) = self.node(b) {
            let p = self.fcmp(op, a, x);
            let q = self.fcmp(op, a, y);
            return self.ite(c, p, q);
        }
        self.mkr(N::FCmp(op, a, b), 1)
    }
    fn fconst(&self, e: E) -> Option<f64> {
        match self.node(e) {
            N::FConst(b) => Some(f64::from_bits(b)),
            _ => None,
        }
    }
    /// n*2^-k  op  c   (swapped: c op n*2^-k)
    fn cmp_const(&mut self, op: FC, n: E, k: i16, c: f64, swapped: bool) -> Option<E> {
        if k < 0 || k > 40 {
            return None;
        }
        let s = c * 2f64.powi(k as i32); // exact scaling
        if s.abs() > 1e15 {
            let pos = s > 0.0;
            return Some(match (op, swapped) {
                (FC::Eq, _) => self.fls,
                (_, false) => self.b(pos),
                (_, true) => self.b(!pos),
            });
        }
        let fl = s.floor();
        let integral = fl == s;
        let w = self.w(n).max(54);
        let x = self.sext(n, w);
        let v = self.ci(fl as i128, w);
        Some(match (op, swapped) {
            (FC::Eq, _) => {
                if integral { self.cmp(Cmp::Eq, x, v) } else { self.fls }
            }
            // x < s : integral: x < fl ; else x <= fl
            (FC::Lt, false) => {
                if integral { self.cmp(Cmp::Slt, x, v) } else { self.cmp(Cmp::Sle, x, v) }
            }
            (FC::Le, false) => self.cmp(Cmp::Sle, x, v),
            // s < x : x > fl
            (FC::Lt, true) => self.cmp(Cmp::Slt, v, x),
            // s <= x
            (FC::Le, true) => {
                if integral { self.cmp(Cmp::Sle, v, x) } else { self.cmp(Cmp::Slt, v, x) }
            }
        })
    }
    pub fn fisnan(&mut self, a: E) -> E {
        match self.node(a) {
            N::FConst(b) => self.b(f64::from_bits(b).is_nan()),
            N::FDy(..) => self.fls,
            N::FIte(c, x, y) => {
                let p = self.fisnan(x);
                let q = self.fisnan(y);
                self.ite(c, p, q)
            }
            _ => self.mk(N::FIsNan(a), 1),
        }
    }
    pub fn itof(&mut self, a: E, signed: bool) -> E {
        let i = self.info[a as usize];
        let lim = 1i128 << 53;
        let f = self.fls;
        if signed && i.smin >= -lim && i.smax <= lim {
            return self.fdy(a, 0, f);
        }
        if !signed && i.umax <= lim as u128 {
            if i.w >= 127 {
                let x = self.ext(a, 0, 60);
                return self.fdy(x, 0, f);
            }
            let x = self.zext(a, i.w + 1);
            return self.fdy(x, 0, f);
        }
        self.mk(if signed { N::SToF(a) } else { N::UToF(a) }, FW)
    }
    pub fn ftoi(&mut self, a: E, w: u8, signed: bool) -> E {
        if let N::FConst(b) = self.node(a) {
            let f = f64::from_bits(b);
            let v = if signed {
                let lo = smin_w(w);
                let hi = smax_w(w);
                let t = if f.is_nan() { 0 } else { (f as i128).max(lo).min(hi) };
                t as u128
            } else {
                let t = f as u128;
                t.min(mask(w))
            };
            return self.c(v, w);
        }
        let t = self.fun(FU::Trunc, a);
        if let Some((n, k, _)) = self.as_dy(t) {
            if k <= 0 && k > -40 {
                if let Some(n) = self.scale(n, (-k) as u32, 100) {
                    let i = self.info[n as usize];
                    if signed {
                        let (lo, hi) = (smin_w(w), smax_w(w));
                        let ww = self.w(n).max(w);
                        let x = self.sext(n, ww);
                        let mut r = x;
                        if i.smin < lo {
                            let c = self.ci(lo, ww);
                            let l = self.cmp(Cmp::Slt, x, c);
                            r = self.ite(l, c, r);
                        }
                        if i.smax > hi {
                            let c = self.ci(hi, ww);
                            let l = self.cmp(Cmp::Slt, c, x);
                            r = self.ite(l, c, r);
                        }
                        return self.ext(r, 0, w);
                    } else {
                        let ww = self.w(n).max(w + 1);
                        let x = self.sext(n, ww);
                        let mut r = x;
                        if i.smin < 0 {
                            let z = self.c(0, ww);
                            let l = self.cmp(Cmp::Slt, x, z);
                            r = self.ite(l, z, r);
                        }
                        if i.smax > mask(w) as i128 {
                            let c = self.ci(mask(w) as i128, ww);
                            let l = self.cmp(Cmp::Slt, c, x);
                            r = self.ite(l, c, r);
                        }
                        return self.ext(r, 0, w);
                    }
                }
            }
        }
        self.mk(if signed { N::FToS(t) } else { N::FToU(t) }, w)
    }

    // ---------------------------------------------------------------- evaluation
    /// Evaluate under an assignment of the variables (variables without a value: `lo`).
    pub fn eval(&self, e: E, model: &[Option<i64>], memo: &mut FMap<E, u128>) -> u128 {
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = self.w(e);
        let r = match self.n[e as usize] {
            N::C(v) => return v,
            N::FConst(b) => return b as u128,
            N::Var(i) => {
                let v = model.get(i as usize).copied().flatten().unwrap_or(self.vars[i as usize].lo);
                (v as i128 as u128) & mask(w)
            }
            N::Bin(op, a, b) => {
                let x = self.eval(a, model, memo);
                // short-circuit for booleans
                if w == 1 && op == B::And && x == 0 {
                    0
                } else if w == 1 && op == B::Or && x == 1 {
                    1
                } else {
                    let y = self.eval(b, model, memo);
                    Self::fold(op, w, x, y).unwrap_or_else(|| match op {
                        // SMT-LIB total semantics
                        B::UDiv => mask(w),
                        B::URem => x,
                        B::SDiv => {
                            if sext128(x, w) < 0 { 1 } else { mask(w) }
                        }
                        _ => x,
                    })
                }
            }
            N::Cmp(op, a, b) => {
                let x = self.eval(a, model, memo);
                let y = self.eval(b, model, memo);
                let aw = self.w(a);
                let (sx, sy) = (sext128(x, aw), sext128(y, aw));
                (match op {
                    Cmp::Eq => x == y,
                    Cmp::Ult => x < y,
                    Cmp::Ule => x <= y,
                    Cmp::Slt => sx < sy,
                    Cmp::Sle => sx <= sy,
                }) as u128
            }
            N::Ite(c, a, b) | N::FIte(c, a, b) => {
                if self.eval(c, model, memo) == 1 {
                    self.eval(a, model, memo)
                } else {
                    self.eval(b, model, memo)
                }
            }
            N::ZExt(a) => self.eval(a, model, memo),
            N::SExt(a) => {
                let v = self.eval(a, model, memo);
                (sext128(v, self.w(a)) as u128) & mask(w)
            }
            N::Ext(a, lo) => (self.eval(a, model, memo) >> lo) & mask(w),
            N::Concat(h, l) => {
                let x = self.eval(h, model, memo);
                let y = self.eval(l, model, memo);
                (x << self.w(l)) | y
            }
            N::FDy(n, k, z) => {
                let v = sext128(self.eval(n, model, memo), self.w(n));
                let z = if v == 0 { self.eval(z, model, memo) == 1 } else { false };
                undyadic(v, k, z).to_bits() as u128
            }
            N::FBin(op, a, b) => {
                let x = f64::from_bits(self.eval(a, model, memo) as u64);
                let y = f64::from_bits(self.eval(b, model, memo) as u64);
                (match op {
                    FB::Add => x + y,
                    FB::Sub => x - y,
                    FB::Mul => x * y,
                    FB::Div => x / y,
                })
                .to_bits() as u128
            }
            N::FUn(op, a) => {
                let x = f64::from_bits(self.eval(a, model, memo) as u64);
                (match op {
                    FU::Neg => -x,
                    FU::Abs => x.abs(),
                    FU::Sqrt => x.sqrt(),
                    FU::Round => x.round(),
                    FU::Floor => x.floor(),
                    FU::Ceil => x.ceil(),
                    FU::Trunc => x.trunc(),
                })
                .to_bits() as u128
            }
            N::FFromBits(a) | N::FBits(a) => self.eval(a, model, memo),
            N::FCmp(op, a, b) => {
                let x = f64::from_bits(self.eval(a, model, memo) as u64);
                let y = f64::from_bits(self.eval(b, model, memo) as u64);
                (match op {
                    FC::Eq => x == y,
                    FC::Lt => x < y,
                    FC::Le => x <= y,
                }) as u128
            }
            N::FIsNan(a) => f64::from_bits(self.eval(a, model, memo) as u64).is_nan() as u128,
            N::SToF(a) => ((sext128(self.eval(a, model, memo), self.w(a))) as f64).to_bits() as u128,
            N::UToF(a) => (self.eval(a, model, memo) as f64).to_bits() as u128,
            N::FToS(a) => {
                let f = f64::from_bits(self.eval(a, model, memo) as u64);
                let t = if f.is_nan() { 0 } else { (f as i128).max(smin_w(w)).min(smax_w(w)) };
                (t as u128) & mask(w)
            }
            N::FToU(a) => {
                let f = f64::from_bits(self.eval(a, model, memo) as u64);
                (f as u128).min(mask(w))
            }
        };
        memo.insert(e, r);
        r
    }
    /// all variables (indices) occurring in e
    pub fn collect_vars(&self, e: E, seen: &mut FSet<E>, out: &mut Vec<u32>) {
        if self.info[e as usize].vars == 0 || !seen.insert(e) {
            return;
        }
        match self.n[e as usize] {
            N::C(_) | N::FConst(_) => {}
            N::Var(i) => out.push(i),
            N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) | N::FBin(_, a, b) | N::FCmp(_, a, b) | N::FDy(a, _, b) => {
                self.collect_vars(a, seen, out);
                self.collect_vars(b, seen, out)
            }
            N::Ite(a, b, c) | N::FIte(a, b, c) => {
                self.collect_vars(a, seen, out);
                self.collect_vars(b, seen, out);
                self.collect_vars(c, seen, out)
            }
            N::ZExt(a) | N::SExt(a) | N::Ext(a, _) | N::FUn(_, a) | N::FFromBits(a) | N::FBits(a) | N::FIsNan(a) | N::SToF(a)
            | N::UToF(a) | N::FToS(a) | N::FToU(a) => self.collect_vars(a, seen, out),
        }
    }
}
