//! Lowering of the parsed IR into a flat instruction array per function.
use crate::expr::{Cmp, FC, FMap};
use crate::ir::{self, Callee, Cst, Op, Ty, Val};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(u32),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Copy, Debug)]
pub enum O {
    R(u32),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BK {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
impl Pred {
    pub fn sym(self) -> (Cmp, bool, bool) {
        // (op, swap, negate)
        match self {
            Pred::Eq => (Cmp::Eq, false, false),
            Pred::Ne => (Cmp::Eq, false, true),
            Pred::Ult => (Cmp::Ult, false, false),
            Pred::Ule => (Cmp::Ule, false, false),
            Pred::Ugt => (Cmp::Ult, true, false),
            Pred::Uge => (Cmp::Ule, true, false),
            Pred::Slt => (Cmp::Slt, false, false),
            Pred::Sle => (Cmp::Sle, false, false),
            Pred::Sgt => (Cmp::Slt, true, false),
            Pred::Sge => (Cmp::Sle, true, false),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FPred {
    False,
    True,
    Ord,
    Uno,
    // base comparison, swap, unordered-accepting, negate-equal
    Cmp { op: FC, swap: bool, uno: bool, neg: bool },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CK {
    ZExt,
    SExt,
    Trunc,
    Bit,    // same bits, no sort change (ptrtoint etc.)
    FToBits,
    BitsToF,
    UToF,
    SToF,
    FToU,
    FToS,
}

#[derive(Debug)]
pub struct Edge {
    pub target: u32,
    pub moves: Box<[(u32, O)]>,
}

#[derive(Debug)]
pub enum CI {
    Bin { op: BK, w: u8, d: u32, a: O, b: O },
    VBin { op: BK, w: u8, d: u32, a: O, b: O },
    FNeg { d: u32, a: O },
    ICmp { p: Pred, w: u8, d: u32, a: O, b: O },
    VICmp { p: Pred, w: u8, d: u32, a: O, b: O },
    FCmp { p: FPred, d: u32, a: O, b: O },
    LoadI { bytes: u8, w: u8, d: u32, p: O },
    LoadF { d: u32, p: O },
    LoadT { t: Box<Ty>, d: u32, p: O },
    StoreI { bytes: u8, w: u8, v: O, p: O },
    StoreF { v: O, p: O },
    StoreT { t: Box<Ty>, v: O, p: O },
    Gep { d: u32, base: O, off: i64 },
    GepI { d: u32, base: O, off: i64, idx: Box<[(O, i64, u8)]> },
    Cast { k: CK, from: u8, to: u8, d: u32, a: O },
    VCast { k: CK, from: Box<Ty>, to: Box<Ty>, d: u32, a: O },
    Sel { float: bool, ptr: bool, scalar: bool, d: u32, c: O, a: O, b: O, w: u8 },
    VSel { d: u32, c: O, a: O, b: O },
    Br(u32),
    CBr { c: O, t: u32, f: u32 },
    Switch { v: O, w: u8, def: u32, cases: Box<[(u64, u32)]>, map: FMap<u64, u32> },
    Call { d: u32, callee: CalleeK, args: Box<[(O, u8)]>, after: u32, ret: u8 }, // arg width (FW float, 0 other)
    Ret(Option<O>),
    Unreachable,
    ExtractV { d: u32, a: O, idx: Box<[u32]> },
    InsertV { d: u32, a: O, v: O, idx: Box<[u32]>, t: Box<Ty> },
    ExtractE { d: u32, a: O, i: O },
    InsertE { d: u32, a: O, v: O, i: O, n: u32 },
    Shuffle { d: u32, a: O, b: O, n: u32, m: Box<[u32]> },
    Rmw { op: RK, w: u8, d: u32, p: O, v: O },
    CmpXchg { w: u8, d: u32, p: O, c: O, n: O },
    Alloca { d: u32, off: u64 },
    Mov { d: u32, a: O },
    Nop,
    F32 { k: F32K, d: u32, a: O, b: O },
    Unsup(Box<str>),
}

/// single-precision operations are carried out on concrete values
#[derive(Debug, Clone, Copy)]
pub enum F32K { Bin(BK), Neg, Cmp(FPred), UToF, SToF(u8), FToU, FToS(u8), Ext, Trunc }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RK {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    UMax,
    UMin,
}
#[derive(Debug)]
pub enum CalleeK {
    F(u32),
    Ext(u32),
    Ptr(O),
    Asm,
}

pub struct CFunc {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub code: Vec<CI>,
    pub edges: Vec<Edge>,
    pub consts: Vec<V>,
    pub frame: u64,
}

pub const BASE: u64 = 0x1000;
pub fn mkaddr(id: u64) -> u64 {
    (id << 32) + BASE
}
/// first object ids: function pointers live in object 1
pub const FN_OBJ: u64 = 1;
pub const GLOBAL0: u64 = 16;

pub struct Prog {
    pub funcs: Vec<CFunc>,
    pub fidx: HashMap<String, u32>,
    pub exts: Vec<String>,
    pub gaddr: HashMap<String, u64>,
    pub gdata: Vec<(Vec<u8>, bool, String)>, // data, constant, name  (object id GLOBAL0 + i)
    pub unresolved_data: Vec<String>,
}

struct L<'a> {
    prog: &'a mut Prog,
    eidx: HashMap<String, u32>,
}

impl<'a> L<'a> {
    fn fn_addr(&mut self, name: &str) -> u64 {
        if let Some(&i) = self.prog.fidx.get(name) {
            return mkaddr(FN_OBJ) + 16 * i as u64;
        }
        // external function: odd multiple of 8 marks it
        let e = self.ext(name);
        mkaddr(FN_OBJ) + 16 * e as u64 + 8
    }
    fn ext(&mut self, name: &str) -> u32 {
        if let Some(&i) = self.eidx.get(name) {
            return i;
        }
        let i = self.prog.exts.len() as u32;
        self.prog.exts.push(name.to_string());
        self.eidx.insert(name.to_string(), i);
        i
    }
    fn gaddr(&mut self, name: &str) -> u64 {
        if let Some(&a) = self.prog.gaddr.get(name) {
            return a;
        }
        self.fn_addr(name)
    }
    fn cint(&mut self, c: &Cst) -> u128 {
        match c {
            Cst::Int(v) => *v,
            Cst::F(b) => *b as u128,
            Cst::Zero | Cst::Undef => 0,
            Cst::Global(g) => self.gaddr(g) as u128,
            Cst::Gep(t, b, idx) => {
                let mut a = self.cint(b) as u64;
                let mut ty = t.clone();
                for (i, x) in idx.iter().enumerate() {
                    let v = self.cint(x) as i64;
                    if i == 0 {
                        a = a.wrapping_add((v as u64).wrapping_mul(ty.size()));
                    } else {
                        a = a.wrapping_add(match &ty {
                            Ty::Struct(..) => ty.field_off(v as usize),
                            _ => (v as u64).wrapping_mul(ty.elem(0).size()),
                        });
                        ty = ty.elem(v as usize);
                    }
                }
                a as u128
            }
            Cst::Cast(_, c, t2) => {
                let v = self.cint(c);
                let w = t2.bits();
                if w >= 128 || w == 0 { v } else { v & ((1u128 << w) - 1) }
            }
            Cst::Bin(op, a, b, _) => {
                let x = self.cint(a);
                let y = self.cint(b);
                match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "xor" => x ^ y,
                    "mul" => x.wrapping_mul(y),
                    _ => x & y,
                }
            }
            _ => 0,
        }
    }
    fn cval(&mut self, t: &Ty, c: &Cst) -> V {
        match t {
            Ty::Int(w) => {
                let v = self.cint(c);
                if *w > 64 {
                    let m = if *w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                    V::W(Rc::new(v & m))
                } else {
                    let m = if *w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                    V::C(v as u64 & m)
                }
            }
            Ty::Ptr => V::C(self.cint(c) as u64),
            Ty::F32 => V::C((f64::from_bits(self.cint(c) as u64) as f32).to_bits() as u64),
            Ty::F64 => V::C(self.cint(c) as u64),
            Ty::Vec(n, e) => match c {
                Cst::Zero | Cst::Undef => V::A(Rc::new((0..*n).map(|_| self.cval(e, &Cst::Zero)).collect())),
                Cst::Splat(_, x) => V::A(Rc::new((0..*n).map(|_| self.cval(e, x)).collect())),
                Cst::Agg(l) => V::A(Rc::new(l.iter().map(|(t, c)| self.cval(t, c)).collect())),
                Cst::Str(s) => V::A(Rc::new(s.iter().map(|b| V::C(*b as u64)).collect())),
                _ => V::C(0),
            },
            Ty::Arr(n, e) => match c {
                Cst::Agg(l) => V::A(Rc::new(l.iter().map(|(t, c)| self.cval(t, c)).collect())),
                Cst::Str(s) => V::A(Rc::new(s.iter().map(|b| V::C(*b as u64)).collect())),
                _ => V::A(Rc::new((0..*n).map(|_| self.cval(e, &Cst::Zero)).collect())),
            },
            Ty::Struct(f, _) => match c {
                Cst::Agg(l) => V::A(Rc::new(l.iter().map(|(t, c)| self.cval(t, c)).collect())),
                _ => V::A(Rc::new(f.iter().map(|t| self.cval(t, &Cst::Zero)).collect())),
            },
            _ => V::C(0),
        }
    }
    fn emit_data(&mut self, t: &Ty, c: &Cst, out: &mut Vec<u8>) {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => {
                let v = self.cint(c);
                let n = t.size() as usize;
                for i in 0..n {
                    out.push(if i < 16 { (v >> (8 * i)) as u8 } else { 0 });
                }
            }
            Ty::Arr(..) | Ty::Vec(..) => {
                match c {
                    Cst::Str(s) => out.extend_from_slice(s),
                    Cst::Agg(l) => {
                        for (t, c) in l {
                            self.emit_data(t, c, out)
                        }
                    }
                    _ => out.extend(std::iter::repeat(0).take(t.size() as usize)),
                }
            }
            Ty::Struct(_, packed) => match c {
                Cst::Agg(l) => {
                    let start = out.len();
                    for (i, (ft, c)) in l.iter().enumerate() {
                        if !packed {
                            let off = t.field_off(i) as usize;
                            while out.len() - start < off {
                                out.push(0)
                            }
                        }
                        self.emit_data(ft, c, out)
                    }
                    while out.len() - start < t.size() as usize {
                        out.push(0)
                    }
                }
                _ => out.extend(std::iter::repeat(0).take(t.size() as usize)),
            },
            _ => {}
        }
    }
}

fn sw(t: &Ty) -> u8 {
    match t {
        Ty::F64 => crate::expr::FW,
        Ty::Int(w) => *w as u8,
        Ty::Ptr => 64,
        Ty::F32 => 32,
        _ => 0,
    }
}

pub fn lower(m: ir::Module) -> Prog {
    let mut prog = Prog { funcs: vec![], fidx: HashMap::new(), exts: vec![], gaddr: HashMap::new(), gdata: vec![], unresolved_data: vec![] };
    for (i, f) in m.funcs.iter().enumerate() {
        prog.fidx.insert(f.name.clone(), i as u32);
    }
    for (a, b) in &m.aliases {
        if let Some(&i) = prog.fidx.get(b) {
            prog.fidx.insert(a.clone(), i);
        }
    }
    // the start-up hook of the Rust runtime that receives the arguments
    if let Some(i) = m.funcs.iter().position(|f| f.name.contains("ARGV_INIT_ARRAY") && f.name.contains("init_wrapper")) {
        prog.fidx.insert("sym_init_args".to_string(), i as u32 as _);
    }
    let fnames: std::collections::HashSet<&str> = m.funcs.iter().map(|f| f.name.as_str()).collect();
    let _ = fnames;
    for (i, g) in m.globals.iter().enumerate() {
        prog.gaddr.insert(g.name.clone(), mkaddr(GLOBAL0 + i as u64));
    }
    for (a, b) in &m.aliases {
        if let Some(&x) = prog.gaddr.get(b) {
            prog.gaddr.insert(a.clone(), x);
        }
    }
    let mut l = L { prog: &mut prog, eidx: HashMap::new() };
    for g in &m.globals {
        let mut d = vec![];
        if let Some(c) = &g.init {
            l.emit_data(&g.ty, c, &mut d);
            let sz = g.ty.size() as usize;
            assert!(d.len() == sz, "global {} size {} vs {}", g.name, d.len(), sz);
        } else {
            l.prog.unresolved_data.push(g.name.clone());
            d = vec![0; (g.ty.size() as usize).max(8)];
        }
        l.prog.gdata.push((d, g.constant, g.name.clone()));
    }
    for f in &m.funcs {
        let cf = lower_fn(&mut l, f);
        l.prog.funcs.push(cf);
    }
    prog
}

fn lower_fn(l: &mut L, f: &ir::Func) -> CFunc {
    let mut consts: Vec<V> = vec![];
    let mut code: Vec<CI> = vec![];
    let mut edges: Vec<Edge> = vec![];
    let mut bidx: HashMap<&str, usize> = HashMap::new();
    for (i, b) in f.blocks.iter().enumerate() {
        bidx.insert(&b.name, i);
    }
    let bi = |n: &str| -> usize { bidx.get(n).copied().unwrap_or(0) };
    let mut starts = vec![0u32; f.blocks.len()];
    let mut frame = 0u64;
    // edge creation deferred: (edge idx, from block, to block)
    let mut fix: Vec<(usize, usize, usize)> = vec![];
    let scratch = f.nregs; // a dummy destination register
    macro_rules! o {
        ($t:expr, $v:expr) => {
            match $v {
                Val::Reg(r) => O::R(*r),
                Val::Cst(c) => {
                    let v = l.cval($t, c);
                    consts.push(v);
                    O::K(consts.len() as u32 - 1)
                }
            }
        };
    }
    macro_rules! edge {
        ($from:expr, $to:expr) => {{
            edges.push(Edge { target: 0, moves: Box::new([]) });
            fix.push((edges.len() - 1, $from, bi($to)));
            edges.len() as u32 - 1
        }};
    }
    for (b, blk) in f.blocks.iter().enumerate() {
        starts[b] = code.len() as u32;
        for ins in &blk.insts {
            let d = ins.dst.unwrap_or(scratch);
            let ci = match &ins.op {
                Op::Phi(..) => continue,
                Op::Bin(op, t, x, y) => {
                    let k = match op.as_str() {
                        "add" => BK::Add,
                        "sub" => BK::Sub,
                        "mul" => BK::Mul,
                        "udiv" => BK::UDiv,
                        "sdiv" => BK::SDiv,
                        "urem" => BK::URem,
                        "srem" => BK::SRem,
                        "shl" => BK::Shl,
                        "lshr" => BK::LShr,
                        "ashr" => BK::AShr,
                        "and" => BK::And,
                        "or" => BK::Or,
                        "xor" => BK::Xor,
                        "fadd" => BK::FAdd,
                        "fsub" => BK::FSub,
                        "fmul" => BK::FMul,
                        "fdiv" => BK::FDiv,
                        _ => BK::FRem,
                    };
                    let a = o!(t, x);
                    let b = o!(t, y);
                    match t {
                        Ty::Vec(_, e) => CI::VBin { op: k, w: sw(e), d, a, b },
                        Ty::F32 => CI::F32 { k: F32K::Bin(k), d, a, b },
                        _ => CI::Bin { op: k, w: sw(t), d, a, b },
                    }
                }
                Op::FNeg(t, x) => {
                    if *t == Ty::F64 {
                        let a = o!(t, x);
                        CI::FNeg { d, a }
                    } else {
                        let a = o!(t, x);
                        if *t == Ty::F32 { CI::F32 { k: F32K::Neg, d, a: a.clone(), b: a } } else { CI::Unsup("fneg".into()) }
                    }
                }
                Op::ICmp(p, t, x, y) => {
                    let p = match p.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        _ => Pred::Sge,
                    };
                    let a = o!(t, x);
                    let b = o!(t, y);
                    match t {
                        Ty::Vec(_, e) => CI::VICmp { p, w: sw(e), d, a, b },
                        _ => CI::ICmp { p, w: sw(t), d, a, b },
                    }
                }
                Op::FCmp(p, t, x, y) => {
                    let c = |op, swap, uno, neg| FPred::Cmp { op, swap, uno, neg };
                    let p = match p.as_str() {
                        "false" => FPred::False,
                        "true" => FPred::True,
                        "ord" => FPred::Ord,
                        "uno" => FPred::Uno,
                        "oeq" => c(FC::Eq, false, false, false),
                        "one" => c(FC::Eq, false, false, true),
                        "olt" => c(FC::Lt, false, false, false),
                        "ole" => c(FC::Le, false, false, false),
                        "ogt" => c(FC::Lt, true, false, false),
                        "oge" => c(FC::Le, true, false, false),
                        "ueq" => c(FC::Eq, false, true, false),
                        "une" => c(FC::Eq, false, true, true),
                        "ult" => c(FC::Lt, false, true, false),
                        "ule" => c(FC::Le, false, true, false),
                        "ugt" => c(FC::Lt, true, true, false),
                        _ => c(FC::Le, true, true, false),
                    };
                    if *t == Ty::F64 {
                        let a = o!(t, x);
                        let b = o!(t, y);
                        CI::FCmp { p, d, a, b }
                    } else {
                        if *t == Ty::F32 {
                            let a = o!(t, x);
                            let b = o!(t, y);
                            CI::F32 { k: F32K::Cmp(p), d, a, b }
                        } else {
                            CI::Unsup("fcmp".into())
                        }
                    }
                }
                Op::Load(t, p) => {
                    let p = o!(&Ty::Ptr, p);
                    match t {
                        Ty::F64 => CI::LoadF { d, p },
                        Ty::Int(w) if *w <= 64 => CI::LoadI { bytes: ((w + 7) / 8) as u8, w: *w as u8, d, p },
                        Ty::Ptr => CI::LoadI { bytes: 8, w: 64, d, p },
                        _ => CI::LoadT { t: Box::new(t.clone()), d, p },
                    }
                }
                Op::Store(t, v, p) => {
                    let v = o!(t, v);
                    let p = o!(&Ty::Ptr, p);
                    match t {
                        Ty::F64 => CI::StoreF { v, p },
                        Ty::Int(w) if *w <= 64 => CI::StoreI { bytes: ((w + 7) / 8) as u8, w: *w as u8, v, p },
                        Ty::Ptr => CI::StoreI { bytes: 8, w: 64, v, p },
                        _ => CI::StoreT { t: Box::new(t.clone()), v, p },
                    }
                }
                Op::Gep(t, base, idx) => {
                    let base = o!(&Ty::Ptr, base);
                    let mut off = 0i64;
                    let mut dynv = vec![];
                    let mut ty = t.clone();
                    for (i, (it, v)) in idx.iter().enumerate() {
                        let stride = if i == 0 {
                            ty.size() as i64
                        } else {
                            match &ty {
                                Ty::Struct(..) => 0,
                                _ => ty.elem(0).size() as i64,
                            }
                        };
                        match v {
                            Val::Cst(c) => {
                                let w = it.bits();
                                let k = crate::expr::sext128(l.cint(c), w as u8) as i64;
                                if i == 0 {
                                    off += k * stride;
                                } else if let Ty::Struct(..) = ty {
                                    off += ty.field_off(k as usize) as i64;
                                    ty = ty.elem(k as usize);
                                } else {
                                    off += k * stride;
                                    ty = ty.elem(0);
                                }
                            }
                            Val::Reg(r) => {
                                dynv.push((O::R(*r), stride, sw(it)));
                                if i > 0 {
                                    ty = ty.elem(0);
                                }
                            }
                        }
                    }
                    if dynv.is_empty() {
                        CI::Gep { d, base, off }
                    } else {
                        CI::GepI { d, base, off, idx: dynv.into_boxed_slice() }
                    }
                }
                Op::Cast(op, t, v, t2) => {
                    let a = o!(t, v);
                    let isv = matches!(t, Ty::Vec(..)) || matches!(t2, Ty::Vec(..));
                    let k = match op.as_str() {
                        "zext" => CK::ZExt,
                        "sext" => CK::SExt,
                        "trunc" => CK::Trunc,
                        "ptrtoint" | "ptrtoaddr" => {
                            if t2.bits() < 64 { CK::Trunc } else { CK::Bit }
                        }
                        "inttoptr" => CK::Bit,
                        "bitcast" => match (t, t2) {
                            (Ty::F64, Ty::Int(64)) => CK::FToBits,
                            (Ty::Int(64), Ty::F64) => CK::BitsToF,
                            _ => CK::Bit,
                        },
                        "uitofp" => CK::UToF,
                        "sitofp" => CK::SToF,
                        "fptoui" => CK::FToU,
                        "fptosi" => CK::FToS,
                        _ => CK::Bit,
                    };
                    if isv {
                        CI::VCast { k, from: Box::new(t.clone()), to: Box::new(t2.clone()), d, a }
                    } else if *t == Ty::F32 || *t2 == Ty::F32 {
                        match op.as_str() {
                            "uitofp" => CI::F32 { k: F32K::UToF, d, a: a.clone(), b: a },
                            "sitofp" => CI::F32 { k: F32K::SToF(sw(t)), d, a: a.clone(), b: a },
                            "fptoui" => CI::F32 { k: F32K::FToU, d, a: a.clone(), b: a },
                            "fptosi" => CI::F32 { k: F32K::FToS(sw(t2)), d, a: a.clone(), b: a },
                            "fpext" => CI::F32 { k: F32K::Ext, d, a: a.clone(), b: a },
                            "fptrunc" => CI::F32 { k: F32K::Trunc, d, a: a.clone(), b: a },
                            "bitcast" => CI::Mov { d, a },
                            _ => CI::Unsup(format!("f32 cast {}", op).into()),
                        }
                    } else {
                        CI::Cast { k, from: sw(t), to: sw(t2), d, a }
                    }
                }
                Op::Select(t, c, x, y, vc) => {
                    if *vc {
                        let n = if let Ty::Vec(n, _) = t { *n } else { 1 };
                        let ct = Ty::Vec(n, Box::new(Ty::Int(1)));
                        let c = o!(&ct, c);
                        let a = o!(t, x);
                        let b = o!(t, y);
                        CI::VSel { d, c, a, b }
                    } else {
                        let c = o!(&Ty::Int(1), c);
                        let a = o!(t, x);
                        let b = o!(t, y);
                        CI::Sel {
                            float: *t == Ty::F64,
                            ptr: *t == Ty::Ptr,
                            scalar: matches!(t, Ty::Int(_) | Ty::F64),
                            d,
                            c,
                            a,
                            b,
                            w: sw(t),
                        }
                    }
                }
                Op::Br(x) => CI::Br(edge!(b, x)),
                Op::CondBr(c, x, y) => {
                    let c = o!(&Ty::Int(1), c);
                    let t = edge!(b, x);
                    let f = edge!(b, y);
                    CI::CBr { c, t, f }
                }
                Op::Switch(t, v, dflt, cases) => {
                    let v = o!(t, v);
                    let w = sw(t);
                    let def = edge!(b, dflt);
                    let mut cs = vec![];
                    let mut map = FMap::default();
                    let mut per_target: HashMap<String, u32> = HashMap::new();
                    for (c, lab) in cases {
                        let cv = match c {
                            Val::Cst(c) => l.cint(c) as u64,
                            _ => 0,
                        };
                        let cv = if w < 64 { cv & ((1u64 << w) - 1) } else { cv };
                        let e = match per_target.get(lab) {
                            Some(e) => *e,
                            None => {
                                let e = edge!(b, lab);
                                per_target.insert(lab.clone(), e);
                                e
                            }
                        };
                        cs.push((cv, e));
                        map.insert(cv, e);
                    }
                    CI::Switch { v, w, def, cases: cs.into_boxed_slice(), map }
                }
                Op::Call(ret, callee, args, normal) => {
                    let ck = match callee {
                        Callee::Name(n) => {
                            if let Some(&i) = l.prog.fidx.get(n) {
                                CalleeK::F(i)
                            } else {
                                CalleeK::Ext(l.ext(n))
                            }
                        }
                        Callee::Val(v) => {
                            let p = o!(&Ty::Ptr, v);
                            CalleeK::Ptr(p)
                        }
                        Callee::Asm(_) => CalleeK::Asm,
                    };
                    let mut av = vec![];
                    for (t, v) in args {
                        let a = o!(t, v);
                        av.push((a, sw(t)));
                    }
                    let after = match normal {
                        Some(n) => edge!(b, n),
                        None => u32::MAX,
                    };
                    CI::Call { d, callee: ck, args: av.into_boxed_slice(), after, ret: sw(ret) }
                }
                Op::Ret(t, v) => match v {
                    Some(v) => {
                        let v = o!(t, v);
                        CI::Ret(Some(v))
                    }
                    None => CI::Ret(None),
                },
                Op::Unreachable => CI::Unreachable,
                Op::ExtractValue(t, v, idx) => {
                    let a = o!(t, v);
                    CI::ExtractV { d, a, idx: idx.iter().map(|x| *x as u32).collect() }
                }
                Op::InsertValue(t, v, t2, v2, idx) => {
                    let a = o!(t, v);
                    let x = o!(t2, v2);
                    CI::InsertV { d, a, v: x, idx: idx.iter().map(|x| *x as u32).collect(), t: Box::new(t.clone()) }
                }
                Op::ExtractElement(t, v, i) => {
                    let a = o!(t, v);
                    let i = o!(&Ty::Int(64), i);
                    CI::ExtractE { d, a, i }
                }
                Op::InsertElement(t, v, e, i) => {
                    let (n, et) = if let Ty::Vec(n, e) = t { (*n, (**e).clone()) } else { (1, Ty::Other) };
                    let a = o!(t, v);
                    let x = o!(&et, e);
                    let i = o!(&Ty::Int(64), i);
                    CI::InsertE { d, a, v: x, i, n }
                }
                Op::Shuffle(t, x, y, mt, m) => {
                    let n = if let Ty::Vec(n, _) = t { *n } else { 1 };
                    let a = o!(t, x);
                    let b = o!(t, y);
                    let mask = match m {
                        Val::Cst(c) => match l.cval(mt, c) {
                            V::A(v) => v.iter().map(|x| if let V::C(c) = x { *c as u32 } else { 0 }).collect::<Vec<_>>(),
                            _ => vec![],
                        },
                        _ => vec![],
                    };
                    CI::Shuffle { d, a, b, n, m: mask.into_boxed_slice() }
                }
                Op::AtomicRmw(op, t, p, v) => {
                    let k = match op.as_str() {
                        "xchg" => Some(RK::Xchg),
                        "add" => Some(RK::Add),
                        "sub" => Some(RK::Sub),
                        "and" => Some(RK::And),
                        "or" => Some(RK::Or),
                        "xor" => Some(RK::Xor),
                        "umax" => Some(RK::UMax),
                        "umin" => Some(RK::UMin),
                        _ => None,
                    };
                    let p = o!(&Ty::Ptr, p);
                    let v = o!(t, v);
                    match k {
                        Some(op) => CI::Rmw { op, w: sw(t), d, p, v },
                        None => CI::Unsup(format!("atomicrmw {}", op).into()),
                    }
                }
                Op::CmpXchg(t, p, c, n) => {
                    let p = o!(&Ty::Ptr, p);
                    let c = o!(t, c);
                    let n = o!(t, n);
                    CI::CmpXchg { w: sw(t), d, p, c, n }
                }
                Op::Alloca(t, n) => {
                    let off = (frame + 15) / 16 * 16;
                    frame = off + (t.size() * n).max(1);
                    CI::Alloca { d, off }
                }
                Op::Freeze(t, v) => {
                    let a = o!(t, v);
                    CI::Mov { d, a }
                }
                Op::Nop => CI::Nop,
                Op::Unsupported(s) => CI::Unsup(s.as_str().into()),
            };
            code.push(ci);
        }
    }
    for (e, from, to) in fix {
        let mut moves = vec![];
        for ins in &f.blocks[to].insts {
            if let Op::Phi(t, inc) = &ins.op {
                for (v, lab) in inc {
                    if bi(lab) == from {
                        let v = o!(t, v);
                        moves.push((ins.dst.unwrap(), v));
                        break;
                    }
                }
            } else {
                break;
            }
        }
        edges[e] = Edge { target: starts[to], moves: moves.into_boxed_slice() };
    }
    CFunc {
        name: f.name.as_str().into(),
        params: f.params.iter().map(|p| p.1).collect(),
        nregs: f.nregs + 1,
        code,
        edges,
        consts,
        frame,
    }
}
