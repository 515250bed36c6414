//! Parser for textual LLVM IR (as printed by rustc's `--emit=llvm-ir` after fat LTO).
//!
//! The parser is total: an instruction it does not understand becomes `Op::Unsupported`,
//! which stops the run with an engine error if (and only if) it is ever executed.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F64,
    F32,
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool), // packed?
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = ((w + 7) / 8) as u64;
                if b <= 1 { 1 } else if b <= 2 { 2 } else if b <= 4 { 4 } else if b <= 8 { 8 } else { (b + 7) / 8 * 8 }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => ((*n as u64) + 7) / 8,
                _ => *n as u64 * t.size(),
            },
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let s = Ty::Int(*w).size();
                if s > 8 { 16.min(s.next_power_of_two()) } else { s }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => Ty::Other,
        }
    }
    /// bit width of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
}

/// A constant, before global addresses are known.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    F(u64),
    Zero,
    Undef,
    Str(Vec<u8>),
    Agg(Vec<(Ty, Cst)>),
    Global(String),
    Gep(Ty, Box<Cst>, Vec<Cst>),
    Cast(Ty, Box<Cst>, Ty),
    Bin(String, Box<Cst>, Box<Cst>, Ty),
    Splat(Ty, Box<Cst>),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Val {
    Reg(u32),
    Cst(Cst),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(String),
    Val(Val),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Op {
    Bin(String, Ty, Val, Val),
    FNeg(Ty, Val),
    ICmp(String, Ty, Val, Val),
    FCmp(String, Ty, Val, Val),
    Load(Ty, Val),
    Store(Ty, Val, Val),
    Gep(Ty, Val, Vec<(Ty, Val)>),
    Cast(String, Ty, Val, Ty),
    Select(Ty, Val, Val, Val, bool), // vector condition?
    Phi(Ty, Vec<(Val, String)>),
    Br(String),
    CondBr(Val, String, String),
    Switch(Ty, Val, String, Vec<(Val, String)>),
    Call(Ty, Callee, Vec<(Ty, Val)>, Option<String>), // invoke: normal dest
    Ret(Ty, Option<Val>),
    Unreachable,
    ExtractValue(Ty, Val, Vec<usize>),
    InsertValue(Ty, Val, Ty, Val, Vec<usize>),
    ExtractElement(Ty, Val, Val),
    InsertElement(Ty, Val, Val, Val),
    Shuffle(Ty, Val, Val, Ty, Val),
    AtomicRmw(String, Ty, Val, Val),
    CmpXchg(Ty, Val, Val, Val),
    Alloca(Ty, u64),
    Freeze(Ty, Val),
    Nop,
    Unsupported(String),
}

pub struct Inst {
    pub dst: Option<u32>,
    pub op: Op,
}

pub struct Block {
    pub name: String,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<(Ty, u32)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub constant: bool,
}

pub struct Module {
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub aliases: Vec<(String, String)>,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    regs: HashMap<Vec<u8>, u32>,
    types: HashMap<String, Ty>,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t' | b'\r') {
                self.i += 1;
            }
            if self.i < self.s.len() && self.s[self.i] == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() { self.s[self.i] } else { 0 }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.die(&format!("expected '{}'", c as char));
        }
    }
    fn die(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(200);
        let b = (self.i + 80).min(self.s.len());
        panic!(
            "IR parse error: {} at ...{}<<HERE>>{}",
            m,
            String::from_utf8_lossy(&self.s[a..self.i]),
            String::from_utf8_lossy(&self.s[self.i..b])
        );
    }
    fn eol(&mut self) {
        // a look-ahead may already have skipped the line break
        while self.i > 0 && matches!(self.s[self.i - 1], b' ' | b'\n' | b'\t' | b'\r') {
            self.i -= 1;
        }
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
    fn peek_word(&mut self) -> &'a [u8] {
        self.ws();
        let s = self.s;
        let mut j = self.i;
        while j < s.len() && is_word(s[j]) {
            j += 1;
        }
        &s[self.i..j]
    }
    fn word(&mut self) -> &'a [u8] {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w.as_bytes() {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// name after '@' or '%'
    fn name(&mut self) -> Vec<u8> {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            self.s[st..j].to_vec()
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_word(self.s[self.i]) {
                self.i += 1;
            }
            self.s[st..self.i].to_vec()
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            let c = self.s[self.i];
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
            }
            if c == b'(' {
                d += 1;
            }
            if c == b')' {
                d -= 1;
            }
            self.i += 1;
            if d == 0 {
                return;
            }
        }
    }
    fn int(&mut self) -> u64 {
        let w = self.word();
        std::str::from_utf8(w).unwrap().parse().unwrap_or_else(|_| self.die("int"))
    }
    fn ty(&mut self) -> Ty {
        let c = self.peek();
        match c {
            b'[' => {
                self.i += 1;
                let n = self.int();
                if !self.eat_word("x") {
                    self.die("x");
                }
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.ty_list(b'}');
                    self.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.int();
                    if !self.eat_word("x") {
                        self.die("x");
                    }
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n as u32, Box::new(t))
                }
            }
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}');
                Ty::Struct(f, false)
            }
            b'%' => {
                self.i += 1;
                let n = String::from_utf8(self.name()).unwrap();
                self.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = self.word();
                match w {
                    b"void" => Ty::Void,
                    b"ptr" => {
                        if self.peek_word() == b"addrspace" {
                            self.word();
                            self.peek();
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    b"double" => Ty::F64,
                    b"float" => Ty::F32,
                    b"label" | b"metadata" | b"token" | b"half" | b"x86_fp80" | b"fp128" | b"opaque" => Ty::Other,
                    _ => {
                        if w.len() > 1 && w[0] == b'i' {
                            if let Ok(n) = std::str::from_utf8(&w[1..]).unwrap().parse() {
                                return Ty::Int(n);
                            }
                        }
                        self.die("type")
                    }
                }
            }
        }
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(end) {
                return v;
            }
            self.expect(b',');
        }
    }
    fn reg(&mut self, n: Vec<u8>) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn is_attr_word(w: &[u8]) -> bool {
        !matches!(
            w,
            b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"none" | b"splat" | b"getelementptr"
                | b"inttoptr" | b"ptrtoint" | b"bitcast" | b"asm" | b"add" | b"sub" | b"xor" | b"trunc" | b"mul" | b"c" | b"and" | b"ptrtoaddr" | b"blockaddress"
        ) && !w.is_empty()
            && w[0].is_ascii_alphabetic()
    }
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.i < self.s.len() && self.s[self.i] == b'=' {
                    self.i += 1;
                    continue;
                }
                continue;
            }
            let w = self.peek_word();
            if !Self::is_attr_word(w) {
                return;
            }
            self.i += w.len();
            if w == b"align" {
                if self.peek() == b'(' {
                    self.skip_parens();
                } else {
                    self.word();
                }
                continue;
            }
            if self.i < self.s.len() && self.s[self.i] == b'(' {
                self.skip_parens();
            }
        }
    }
    fn cst(&mut self, t: &Ty) -> Cst {
        match self.val(t) {
            Val::Cst(c) => c,
            _ => self.die("constant expected"),
        }
    }
    fn typed_cst(&mut self) -> (Ty, Cst) {
        let t = self.ty();
        self.skip_attrs();
        let c = self.cst(&t);
        (t, c)
    }
    fn cst_list(&mut self, end: u8) -> Vec<(Ty, Cst)> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.typed_cst());
            if self.eat(end) {
                return v;
            }
            self.expect(b',');
        }
    }
    fn val(&mut self, t: &Ty) -> Val {
        let c = self.peek();
        match c {
            b'%' => {
                self.i += 1;
                let n = self.name();
                Val::Reg(self.reg(n))
            }
            b'@' => {
                self.i += 1;
                Val::Cst(Cst::Global(String::from_utf8(self.name()).unwrap()))
            }
            b'[' => {
                self.i += 1;
                Val::Cst(Cst::Agg(self.cst_list(b']')))
            }
            b'{' => {
                self.i += 1;
                Val::Cst(Cst::Agg(self.cst_list(b'}')))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let r = self.cst_list(b'}');
                    self.expect(b'>');
                    Val::Cst(Cst::Agg(r))
                } else {
                    Val::Cst(Cst::Agg(self.cst_list(b'>')))
                }
            }
            _ => {
                let w = self.word();
                match w {
                    b"true" => Val::Cst(Cst::Int(1)),
                    b"false" => Val::Cst(Cst::Int(0)),
                    b"null" | b"zeroinitializer" | b"none" => Val::Cst(Cst::Zero),
                    b"undef" | b"poison" => Val::Cst(Cst::Undef),
                    b"c" => {
                        // c"..."
                        self.expect(b'"');
                        let mut v = vec![];
                        while self.s[self.i] != b'"' {
                            if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' {
                                v.push(b'\\');
                                self.i += 2;
                            } else if self.s[self.i] == b'\\' {
                                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                                v.push(u8::from_str_radix(h, 16).unwrap());
                                self.i += 3;
                            } else {
                                v.push(self.s[self.i]);
                                self.i += 1;
                            }
                        }
                        self.i += 1;
                        Val::Cst(Cst::Str(v))
                    }
                    b"splat" => {
                        self.expect(b'(');
                        let (t, c) = self.typed_cst();
                        self.expect(b')');
                        Val::Cst(Cst::Splat(t, Box::new(c)))
                    }
                    b"getelementptr" => {
                        while self.peek() != b'(' {
                            let w = self.word();
                            if w == b"inrange" {
                                self.peek();
                                self.skip_parens();
                            }
                        }
                        self.expect(b'(');
                        let t = self.ty();
                        self.expect(b',');
                        let (_, base) = self.typed_cst();
                        let mut idx = vec![];
                        while self.eat(b',') {
                            idx.push(self.typed_cst().1);
                        }
                        self.expect(b')');
                        Val::Cst(Cst::Gep(t, Box::new(base), idx))
                    }
                    b"inttoptr" | b"ptrtoint" | b"bitcast" | b"trunc" | b"ptrtoaddr" => {
                        self.expect(b'(');
                        let (t, c) = self.typed_cst();
                        if !self.eat_word("to") {
                            self.die("to");
                        }
                        let t2 = self.ty();
                        self.expect(b')');
                        Val::Cst(Cst::Cast(t, Box::new(c), t2))
                    }
                    b"add" | b"sub" | b"xor" | b"mul" | b"and" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.expect(b'(');
                        let (t, a) = self.typed_cst();
                        self.expect(b',');
                        let (_, b) = self.typed_cst();
                        self.expect(b')');
                        Val::Cst(Cst::Bin(String::from_utf8(w.to_vec()).unwrap(), Box::new(a), Box::new(b), t))
                    }
                    _ => {
                        let s = std::str::from_utf8(w).unwrap();
                        match t {
                            Ty::F64 | Ty::F32 => {
                                if let Some(h) = s.strip_prefix("f0x") {
                                    let b = u64::from_str_radix(h, 16).unwrap_or_else(|_| self.die("hexf"));
                                    Val::Cst(Cst::F(if h.len() == 8 { (f32::from_bits(b as u32) as f64).to_bits() } else { b }))
                                } else if let Some(h) = s.strip_prefix("0x") {
                                    Val::Cst(Cst::F(u64::from_str_radix(h, 16).unwrap_or_else(|_| self.die("hexf"))))
                                } else {
                                    // handle 1.000000e+00: '+' is not a word char
                                    let mut txt = s.to_string();
                                    if self.i < self.s.len() && self.s[self.i] == b'+' {
                                        self.i += 1;
                                        txt.push('+');
                                        txt.push_str(std::str::from_utf8(self.word()).unwrap());
                                    }
                                    let neg = txt.starts_with('-');
                                    match txt.trim_start_matches(|c| c == '+' || c == '-') {
                                        "qnan" | "nan" => {
                                            let mut b = 0x7ff8_0000_0000_0000u64;
                                            if self.i < self.s.len() && self.s[self.i] == b'(' {
                                                self.i += 1;
                                                let h = std::str::from_utf8(self.word()).unwrap().trim_start_matches("0x").to_string();
                                                b |= u64::from_str_radix(&h, 16).unwrap_or(0);
                                                self.expect(b')');
                                            }
                                            return Val::Cst(Cst::F(b | ((neg as u64) << 63)));
                                        }
                                        "inf" => return Val::Cst(Cst::F(0x7ff0_0000_0000_0000 | ((neg as u64) << 63))),
                                        _ => {}
                                    }
                                    match txt.parse::<f64>() {
                                        Ok(f) => Val::Cst(Cst::F(f.to_bits())),
                                        Err(_) => self.die("float"),
                                    }
                                }
                            }
                            _ => {
                                if let Ok(n) = s.parse::<i128>() {
                                    Val::Cst(Cst::Int(n as u128))
                                } else if let Ok(n) = s.parse::<u128>() {
                                    Val::Cst(Cst::Int(n))
                                } else {
                                    self.die(&format!("value '{}'", s))
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    fn typed_val(&mut self) -> (Ty, Val) {
        let t = self.ty();
        self.skip_attrs();
        let v = self.val(&t);
        (t, v)
    }
    fn label(&mut self) -> String {
        if !self.eat_word("label") {
            self.die("label");
        }
        self.expect(b'%');
        String::from_utf8(self.name()).unwrap()
    }

    fn call(&mut self, invoke: bool) -> Op {
        // after 'call' / 'invoke'
        // fmf, cconv, ret attrs until a type
        loop {
            let c = self.peek();
            if c == b'"' {
                self.skip_attrs();
                continue;
            }
            let w = self.peek_word();
            let is_ty = w.is_empty()
                || matches!(w, b"void" | b"ptr" | b"double" | b"float" | b"metadata" | b"token")
                || (w[0] == b'i' && w.len() > 1 && w[1..].iter().all(|c| c.is_ascii_digit()));
            if is_ty {
                break;
            }
            self.i += w.len();
            if w == b"align" || w == b"cc" {
                self.word();
            } else if self.s[self.i] == b'(' {
                self.skip_parens();
            }
        }
        let ret = self.ty();
        if self.peek() == b'(' {
            // function type
            self.skip_parens();
        }
        let callee = match self.peek() {
            b'@' => {
                self.i += 1;
                Callee::Name(String::from_utf8(self.name()).unwrap())
            }
            b'%' => Callee::Val(self.val(&Ty::Ptr)),
            _ => {
                let w = self.peek_word();
                if w == b"asm" {
                    let st = self.i;
                    // up to the argument list: two strings
                    let mut n = 0;
                    while n < 4 {
                        if self.s[self.i] == b'"' {
                            n += 1;
                        }
                        self.i += 1;
                    }
                    Callee::Asm(String::from_utf8_lossy(&self.s[st..self.i]).to_string())
                } else {
                    Callee::Val(self.val(&Ty::Ptr))
                }
            }
        };
        self.expect(b'(');
        let mut args = vec![];
        if !self.eat(b')') {
            loop {
                let t = self.ty();
                if t == Ty::Other {
                    // metadata argument: skip to , or )
                    let mut d = 0;
                    loop {
                        let c = self.s[self.i];
                        if c == b'(' {
                            d += 1
                        }
                        if c == b')' {
                            if d == 0 {
                                break;
                            }
                            d -= 1
                        }
                        if c == b',' && d == 0 {
                            break;
                        }
                        self.i += 1;
                    }
                    args.push((t, Val::Cst(Cst::Undef)));
                } else {
                    self.skip_attrs();
                    let v = self.val(&t);
                    args.push((t, v));
                }
                if self.eat(b')') {
                    break;
                }
                self.expect(b',');
            }
        }
        let mut normal = None;
        if invoke {
            // skip attrs until "to label"
            loop {
                self.ws();
                if self.peek_word() == b"to" {
                    self.word();
                    break;
                }
                if self.peek() == b'[' {
                    let mut d = 0;
                    loop {
                        if self.s[self.i] == b'[' { d += 1 }
                        if self.s[self.i] == b']' { d -= 1 }
                        self.i += 1;
                        if d == 0 { break }
                    }
                    continue;
                }
                self.i += 1;
            }
            normal = Some(self.label());
            self.eat_word("unwind");
            self.label();
        }
        Op::Call(ret, callee, args, normal)
    }

    fn inst(&mut self) -> Inst {
        let mut dst = None;
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            dst = Some(self.reg(n));
            self.expect(b'=');
        }
        let start = self.i;
        let w = self.word();
        let op = match w {
            b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"shl" | b"lshr" | b"ashr" | b"and" | b"or"
            | b"xor" | b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                loop {
                    let w = self.peek_word();
                    if matches!(
                        w,
                        b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc"
                    ) {
                        self.word();
                    } else {
                        break;
                    }
                }
                let t = self.ty();
                let a = self.val(&t);
                self.expect(b',');
                let b = self.val(&t);
                Op::Bin(String::from_utf8(w.to_vec()).unwrap(), t, a, b)
            }
            b"fneg" => {
                let t = self.ty();
                let a = self.val(&t);
                Op::FNeg(t, a)
            }
            b"icmp" | b"fcmp" => {
                let mut p = self.word();
                while matches!(p, b"samesign" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc") {
                    p = self.word();
                }
                let t = self.ty();
                let a = self.val(&t);
                self.expect(b',');
                let b = self.val(&t);
                let p = String::from_utf8(p.to_vec()).unwrap();
                if w == b"icmp" { Op::ICmp(p, t, a, b) } else { Op::FCmp(p, t, a, b) }
            }
            b"load" => {
                while matches!(self.peek_word(), b"atomic" | b"volatile") {
                    self.word();
                }
                let t = self.ty();
                self.expect(b',');
                let (_, p) = self.typed_val();
                Op::Load(t, p)
            }
            b"store" => {
                while matches!(self.peek_word(), b"atomic" | b"volatile") {
                    self.word();
                }
                let (t, v) = self.typed_val();
                self.expect(b',');
                let (_, p) = self.typed_val();
                Op::Store(t, v, p)
            }
            b"getelementptr" => {
                while matches!(self.peek_word(), b"inbounds" | b"nuw" | b"nusw" | b"inrange") {
                    let w = self.word();
                    if w == b"inrange" {
                        self.skip_parens();
                    }
                }
                let t = self.ty();
                self.expect(b',');
                let (bt, base) = self.typed_val();
                let mut idx = vec![];
                while self.peek() == b',' {
                    self.i += 1;
                    if self.peek() == b'!' {
                        break;
                    }
                    idx.push(self.typed_val());
                }
                if matches!(bt, Ty::Vec(..)) {
                    Op::Unsupported("vector gep".into())
                } else {
                    Op::Gep(t, base, idx)
                }
            }
            b"zext" | b"sext" | b"trunc" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"uitofp" | b"sitofp" | b"fptoui" | b"fptosi"
            | b"fpext" | b"fptrunc" | b"ptrtoaddr" => {
                while matches!(self.peek_word(), b"nneg" | b"nuw" | b"nsw" | b"fast" | b"nnan" | b"contract") {
                    self.word();
                }
                let (t, v) = self.typed_val();
                if !self.eat_word("to") {
                    self.die("to");
                }
                let t2 = self.ty();
                Op::Cast(String::from_utf8(w.to_vec()).unwrap(), t, v, t2)
            }
            b"select" => {
                while matches!(self.peek_word(), b"fast" | b"nnan" | b"ninf" | b"nsz" | b"contract") {
                    self.word();
                }
                let (ct, c) = self.typed_val();
                self.expect(b',');
                let (t, a) = self.typed_val();
                self.expect(b',');
                let (_, b) = self.typed_val();
                Op::Select(t, c, a, b, matches!(ct, Ty::Vec(..)))
            }
            b"phi" => {
                while matches!(self.peek_word(), b"fast" | b"nnan" | b"ninf" | b"nsz" | b"contract") {
                    self.word();
                }
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.expect(b'[');
                    let x = self.val(&t);
                    self.expect(b',');
                    self.expect(b'%');
                    let l = String::from_utf8(self.name()).unwrap();
                    self.expect(b']');
                    v.push((x, l));
                    // a following ',' may introduce metadata
                    let save = self.i;
                    if self.i < self.s.len() && self.s[self.i] == b',' {
                        self.i += 1;
                        if self.peek() == b'[' {
                            continue;
                        }
                        self.i = save;
                    }
                    break;
                }
                Op::Phi(t, v)
            }
            b"br" => {
                if self.peek_word() == b"label" {
                    Op::Br(self.label())
                } else {
                    let (_, c) = self.typed_val();
                    self.expect(b',');
                    let a = self.label();
                    self.expect(b',');
                    let b = self.label();
                    Op::CondBr(c, a, b)
                }
            }
            b"switch" => {
                let (t, v) = self.typed_val();
                self.expect(b',');
                let d = self.label();
                self.expect(b'[');
                let mut cases = vec![];
                while !self.eat(b']') {
                    let (_, c) = self.typed_val();
                    self.expect(b',');
                    let l = self.label();
                    cases.push((c, l));
                }
                Op::Switch(t, v, d, cases)
            }
            b"tail" | b"musttail" | b"notail" => {
                self.eat_word("call");
                self.call(false)
            }
            b"call" => self.call(false),
            b"invoke" => self.call(true),
            b"ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    Op::Ret(t, None)
                } else {
                    let v = self.val(&t);
                    Op::Ret(t, Some(v))
                }
            }
            b"unreachable" => Op::Unreachable,
            b"extractvalue" => {
                let (t, v) = self.typed_val();
                let mut idx = vec![];
                while self.eat(b',') {
                    if self.peek() == b'!' {
                        break;
                    }
                    idx.push(self.int() as usize);
                }
                Op::ExtractValue(t, v, idx)
            }
            b"insertvalue" => {
                let (t, v) = self.typed_val();
                self.expect(b',');
                let (t2, v2) = self.typed_val();
                let mut idx = vec![];
                while self.eat(b',') {
                    if self.peek() == b'!' {
                        break;
                    }
                    idx.push(self.int() as usize);
                }
                Op::InsertValue(t, v, t2, v2, idx)
            }
            b"extractelement" => {
                let (t, v) = self.typed_val();
                self.expect(b',');
                let (_, i) = self.typed_val();
                Op::ExtractElement(t, v, i)
            }
            b"insertelement" => {
                let (t, v) = self.typed_val();
                self.expect(b',');
                let (_, e) = self.typed_val();
                self.expect(b',');
                let (_, i) = self.typed_val();
                Op::InsertElement(t, v, e, i)
            }
            b"shufflevector" => {
                let (t, a) = self.typed_val();
                self.expect(b',');
                let (_, b) = self.typed_val();
                self.expect(b',');
                let (mt, m) = self.typed_val();
                Op::Shuffle(t, a, b, mt, m)
            }
            b"atomicrmw" => {
                self.eat_word("volatile");
                let o = String::from_utf8(self.word().to_vec()).unwrap();
                let (_, p) = self.typed_val();
                self.expect(b',');
                let (t, v) = self.typed_val();
                Op::AtomicRmw(o, t, p, v)
            }
            b"cmpxchg" => {
                self.eat_word("weak");
                self.eat_word("volatile");
                let (_, p) = self.typed_val();
                self.expect(b',');
                let (t, c) = self.typed_val();
                self.expect(b',');
                let (_, n) = self.typed_val();
                Op::CmpXchg(t, p, c, n)
            }
            b"alloca" => {
                let t = self.ty();
                let mut n = 1;
                if self.peek() == b',' {
                    let save = self.i;
                    self.i += 1;
                    let w = self.peek_word();
                    if w != b"align" && !w.is_empty() {
                        let (_, v) = self.typed_val();
                        if let Val::Cst(Cst::Int(k)) = v {
                            n = k as u64;
                        } else {
                            n = u64::MAX;
                        }
                    } else {
                        self.i = save;
                    }
                }
                if n == u64::MAX { Op::Unsupported("dynamic alloca".into()) } else { Op::Alloca(t, n) }
            }
            b"freeze" => {
                let (t, v) = self.typed_val();
                Op::Freeze(t, v)
            }
            b"fence" => Op::Nop,
            b"landingpad" => {
                self.eol();
                loop {
                    let w = self.peek_word();
                    if w == b"cleanup" || w == b"catch" || w == b"filter" {
                        { self.word(); self.eol(); }
                    } else {
                        break;
                    }
                }
                return Inst { dst, op: Op::Unsupported("landingpad".into()) };
            }
            b"resume" => Op::Unsupported("resume".into()),
            _ => {
                self.i = start;
                let st = self.i;
                self.eol();
                Op::Unsupported(String::from_utf8_lossy(&self.s[st..self.i]).to_string())
            }
        };
        self.eol();
        Inst { dst, op }
    }
}

pub fn parse(text: &str) -> Module {
    let mut p = P { s: text.as_bytes(), i: 0, regs: HashMap::new(), types: HashMap::new() };
    let mut m = Module { globals: vec![], funcs: vec![], aliases: vec![] };
    loop {
        let c = p.peek();
        match c {
            0 => break,
            b'!' | b'^' => { p.i += 1; p.eol() },
            b'%' => {
                p.i += 1;
                let n = String::from_utf8(p.name()).unwrap();
                p.expect(b'=');
                p.eat_word("type");
                let t = p.ty();
                p.types.insert(n, t);
                p.eol();
            }
            b'@' => {
                p.i += 1;
                let name = String::from_utf8(p.name()).unwrap();
                p.expect(b'=');
                let mut external = false;
                let mut constant = false;
                loop {
                    let w = p.word();
                    match w {
                        b"external" | b"extern_weak" => external = true,
                        b"global" => break,
                        b"constant" => {
                            constant = true;
                            break;
                        }
                        b"alias" | b"ifunc" => {
                            let _ = p.ty();
                            // possibly function type
                            if p.peek() == b'(' {
                                p.skip_parens();
                            }
                            p.expect(b',');
                            let (_, c) = p.typed_cst();
                            if let Cst::Global(g) = c {
                                m.aliases.push((name.clone(), g));
                            }
                            external = true;
                            break;
                        }
                        b"" => p.die("global"),
                        _ => {
                            if p.s[p.i] == b'(' {
                                p.skip_parens();
                            }
                        }
                    }
                }
                if m.aliases.last().map(|a| a.0 == name).unwrap_or(false) {
                    p.eol();
                    continue;
                }
                let ty = p.ty();
                let init = if external { None } else { Some(p.cst(&ty)) };
                m.globals.push(Global { name, ty, init, constant });
                p.eol();
            }
            _ => {
                let w = p.word();
                match w {
                    b"define" => {
                        p.regs = HashMap::new();
                        // find '@' before '('; ret type precedes it
                        // skip linkage/attrs until type
                        let save = p.i;
                        let mut j = p.i;
                        while p.s[j] != b'@' {
                            j += 1;
                        }
                        // the type is the last type before '@': parse forward
                        p.i = save;
                        let ret;
                        loop {
                            let c = p.peek();
                            if c == b'"' {
                                p.skip_attrs();
                                continue;
                            }
                            let w = p.peek_word();
                            let is_ty = w.is_empty()
                                || matches!(w, b"void" | b"ptr" | b"double" | b"float")
                                || (w[0] == b'i' && w.len() > 1 && w[1..].iter().all(|c| c.is_ascii_digit()));
                            if is_ty {
                                ret = p.ty();
                                break;
                            }
                            p.i += w.len();
                            if w == b"align" || w == b"cc" {
                                p.word();
                            } else if p.s[p.i] == b'(' {
                                p.skip_parens();
                            }
                        }
                        p.expect(b'@');
                        let name = String::from_utf8(p.name()).unwrap();
                        p.expect(b'(');
                        let mut params = vec![];
                        if !p.eat(b')') {
                            loop {
                                if p.peek() == b'.' {
                                    p.i += 3;
                                    p.expect(b')');
                                    break;
                                }
                                let t = p.ty();
                                p.skip_attrs();
                                let r = if p.peek() == b'%' {
                                    p.i += 1;
                                    let n = p.name();
                                    p.reg(n)
                                } else {
                                    let n = format!("{}", params.len()).into_bytes();
                                    p.reg(n)
                                };
                                params.push((t, r));
                                if p.eat(b')') {
                                    break;
                                }
                                p.expect(b',');
                            }
                        }
                        // to '{' at the end of the line
                        while !(p.s[p.i] == b'{' && (p.s[p.i + 1] == b'\n')) {
                            p.i += 1;
                        }
                        p.i += 1;
                        let mut blocks: Vec<Block> = vec![];
                        loop {
                            let c = p.peek();
                            if c == b'}' {
                                p.i += 1;
                                break;
                            }
                            // label?
                            let save = p.i;
                            let mut lbl = None;
                            if c == b'"' {
                                let n = p.name();
                                if p.s[p.i] == b':' {
                                    p.i += 1;
                                    lbl = Some(String::from_utf8(n).unwrap());
                                } else {
                                    p.i = save;
                                }
                            } else if is_word(c) {
                                let w = p.word();
                                if p.i < p.s.len() && p.s[p.i] == b':' {
                                    p.i += 1;
                                    lbl = Some(String::from_utf8(w.to_vec()).unwrap());
                                } else {
                                    p.i = save;
                                }
                            }
                            if let Some(l) = lbl {
                                blocks.push(Block { name: l, insts: vec![] });
                                p.eol();
                                continue;
                            }
                            if c == b'#' {
                                // debug records
                                p.i += 1;
                                p.eol();
                                continue;
                            }
                            if blocks.is_empty() {
                                // implicit entry label: numbered after the parameters
                                blocks.push(Block { name: "<entry>".into(), insts: vec![] });
                            }
                            let ins = p.inst();
                            blocks.last_mut().unwrap().insts.push(ins);
                        }
                        // the implicit entry block may be named by a number in phis
                        let nregs = p.regs.len() as u32;
                        m.funcs.push(Func { name, ret, params, nregs, blocks });
                    }
                    _ => {
                        p.i += 1;
                        p.eol()
                    }
                }
            }
        }
    }
    m
}
