//! LLVM textual IR: lexer, types, constants, lazily parsed functions.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), F32, F64, Ptr, Arr(u64, Rc<Ty>), Vec(u64, Rc<Ty>), Struct(Vec<Rc<Ty>>, bool), Meta, Label }
pub type TyR = Rc<Ty>;

impl Ty {
    pub fn bits(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, _ => panic!("bits of {:?}", self) } }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr) }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    /// allocation size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let s = (*w as u64 + 7) / 8; let a = self.align(); (s + a - 1) / a * a }
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, p) => { let mut o = 0; for t in f { if !p { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); } let a = self.align(); (o + a - 1) / a * a }
            _ => 0,
        }
    }
    /// bytes read/written by a scalar access
    pub fn store_size(&self) -> u64 { match self { Ty::Int(w) => (*w as u64 + 7) / 8, _ => self.size() } }
    pub fn field(&self, i: u64) -> (u64, TyR) {
        match self {
            Ty::Struct(f, p) => { let mut o = 0; for (k, t) in f.iter().enumerate() { if !p { let a = t.align(); o = (o + a - 1) / a * a; } if k as u64 == i { return (o, t.clone()); } o += t.size(); } panic!("field") }
            Ty::Arr(_, t) => (i * t.size(), t.clone()),
            Ty::Vec(_, t) => (i * t.size(), t.clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn count(&self) -> u64 { match self { Ty::Struct(f, _) => f.len() as u64, Ty::Arr(n, _) | Ty::Vec(n, _) => *n, _ => 0 } }
    pub fn elem(&self, i: u64) -> TyR { self.field(i).1 }
}

#[derive(Clone, Debug)]
pub enum Val { I(u128, u16), S(u32), A(Rc<Vec<Val>>) }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), V(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Debug)]
pub enum Callee { Direct(String), Indirect(Opd), Asm(String) }

#[derive(Debug)]
pub enum Inst {
    Bin(Bin, u32, TyR, Opd, Opd),
    FNeg(u32, TyR, Opd),
    ICmp(Pred, u32, TyR, Opd, Opd),
    FCmp(String, u32, TyR, Opd, Opd),
    Cast(Cast, u32, TyR, Opd, TyR),
    Load(u32, TyR, Opd, bool),
    Store(TyR, Opd, Opd, bool),
    Alloca(u32, u64, u64, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u16, i64)>),
    Select(u32, TyR, TyR, Opd, Opd, Opd),
    Call { dst: Option<u32>, ret: TyR, callee: Callee, args: Vec<(TyR, Opd)>, noreturn: bool, to: Option<u32> },
    Extract(u32, TyR, Opd, Vec<u64>),
    Insert(u32, TyR, Opd, Opd, Vec<u64>),
    ExtElem(u32, TyR, Opd, Opd),
    InsElem(u32, TyR, Opd, Opd, Opd),
    Shuffle(u32, TyR, Opd, Opd, Vec<i64>),
    Rmw(String, u32, TyR, Opd, Opd),
    CmpXchg(u32, TyR, Opd, Opd, Opd),
    Freeze(u32, TyR, Opd),
    Fence,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(TyR, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(TyR, Opd)>),
    Unreachable,
    Unsupported(String),
}

pub struct Phi { pub dst: u32, pub inc: Vec<(u32, Opd)> }
pub struct Block { pub name: String, pub phis: Vec<Phi>, pub insts: Vec<Inst> }
pub struct Func { pub name: String, pub params: Vec<u32>, pub nregs: usize, pub blocks: Vec<Block>, pub ninsts: usize, pub idx: usize }

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { W(String), L(String), G(String), N(String), C(Vec<u8>), S(String), P(char), M, Attr(u32), Dots }

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-');
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b'/' if b.get(i + 1) == Some(&b'*') => { i += 2; while i + 1 < b.len() && !(b[i] == b'*' && b[i + 1] == b'/') { i += 1; } i += 2; }
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' { let st = i + 1; i += 1; while b[i] != b'"' { i += 1; } name = s[st..i].to_string(); i += 1; }
                else { let st = i; while i < b.len() && idc(b[i]) { i += 1; } name = s[st..i].to_string(); }
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'#' => { i += 1; let st = i; while i < b.len() && b[i].is_ascii_digit() { i += 1; } out.push(Tok::Attr(s[st..i].parse().unwrap())); }
            b'!' => { i += 1; while i < b.len() && (idc(b[i])) { i += 1; } if i < b.len() && b[i] == b'{' { let mut d = 0; while i < b.len() { if b[i] == b'{' { d += 1 } if b[i] == b'}' { d -= 1; if d == 0 { i += 1; break; } } i += 1; } } out.push(Tok::M); }
            b'"' => { let (v, e) = lstr(b, i); i = e; out.push(Tok::S(String::from_utf8_lossy(&v).into_owned())); }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { let (v, e) = lstr(b, i + 1); i = e; out.push(Tok::C(v)); }
            b'.' if s[i..].starts_with("...") => { i += 3; out.push(Tok::Dots); }
            b'-' | b'+' | b'0'..=b'9' => {
                let st = i; i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && matches!(b[i - 1], b'e' | b'E') && !s[st..].starts_with("0x"))) { i += 1; }
                out.push(Tok::N(s[st..i].to_string()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => { let st = i; while i < b.len() && idc(b[i]) { i += 1; } out.push(Tok::W(s[st..i].to_string())); }
            _ => { out.push(Tok::P(c as char)); i += 1; }
        }
    }
    out
}
fn lstr(b: &[u8], q: usize) -> (Vec<u8>, usize) {
    let mut v = vec![];
    let mut i = q + 1;
    while b[i] != b'"' {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; }
            else { let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap(); v.push(u8::from_str_radix(h, 16).unwrap()); i += 3; }
        } else { v.push(b[i]); i += 1; }
    }
    (v, i + 1)
}

pub struct Global { pub name: String, pub line: (usize, usize), pub ty: TyR, pub is_const: bool, pub addr: u64, pub ext: bool, pub init_at: usize, pub tls: bool }
pub struct FnInfo { pub name: String, pub def: Option<(usize, usize)>, pub noreturn: bool, pub addr: u64 }

pub const G_BASE: u64 = 1 << 40;
pub const H_BASE: u64 = 2 << 40;
pub const S_BASE: u64 = 3 << 40;
pub const F_BASE: u64 = 4 << 40;
pub const SLOT: u64 = 1 << 20;
pub const GSLOT: u64 = 1 << 14; // globals lie close together: relative tables hold 32-bit differences
pub const SLOT_OFF: u64 = 1 << 12;

pub struct Module {
    pub src: &'static str,
    pub types: HashMap<String, TyR>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, usize>,
    pub gslot: Vec<u32>,
    pub fns: Vec<FnInfo>,
    pub fmap: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
    pub noret_attr: std::collections::HashSet<u32>,
}

pub struct Cur<'a> { pub t: &'a [Tok], pub i: usize, pub m: &'a Module }
impl<'a> Cur<'a> {
    pub fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    pub fn next(&mut self) -> Tok { let t = self.t.get(self.i).cloned().unwrap_or(Tok::M); self.i += 1; t }
    pub fn is_p(&self, c: char) -> bool { self.peek() == Some(&Tok::P(c)) }
    pub fn is_w(&self, w: &str) -> bool { matches!(self.peek(), Some(Tok::W(x)) if x == w) }
    pub fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    pub fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.i += 1; true } else { false } }
    pub fn exp_p(&mut self, c: char) { if !self.eat_p(c) { panic!("expected {c} at {:?}", &self.t[self.i.saturating_sub(4)..(self.i + 6).min(self.t.len())]); } }
    pub fn skip_paren(&mut self) { if self.is_p('(') { let mut d = 0; loop { match self.next() { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { break; } } _ => {} } if self.i > self.t.len() { panic!("paren") } } } }
    pub fn is_type(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => is_ty_word(w),
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
            Some(Tok::L(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> TyR {
        match self.next() {
            Tok::W(w) => match w.as_str() {
                "void" => Rc::new(Ty::Void), "ptr" => { if self.eat_w("addrspace") { self.skip_paren(); } Rc::new(Ty::Ptr) }
                "float" => Rc::new(Ty::F32), "double" => Rc::new(Ty::F64), "half" => Rc::new(Ty::Int(16)), "fp128" | "x86_fp80" => Rc::new(Ty::Int(128)),
                "label" => Rc::new(Ty::Label), "metadata" | "token" => Rc::new(Ty::Meta),
                _ if w.starts_with('i') => Rc::new(Ty::Int(w[1..].parse().unwrap())),
                _ => panic!("type {w}"),
            },
            Tok::P('[') => { let n = self.num(); assert!(self.eat_w("x")); let t = self.ty(); self.exp_p(']'); Rc::new(Ty::Arr(n, t)) }
            Tok::P('{') => Rc::new(Ty::Struct(self.fields('}'), false)),
            Tok::P('<') => {
                if self.eat_p('{') { let f = self.fields('}'); self.exp_p('>'); Rc::new(Ty::Struct(f, true)) }
                else { let n = self.num(); assert!(self.eat_w("x")); let t = self.ty(); self.exp_p('>'); Rc::new(Ty::Vec(n, t)) }
            }
            Tok::L(n) => self.m.types.get(&n).unwrap_or_else(|| panic!("type %{n}")).clone(),
            t => panic!("type at {:?} ctx {:?}", t, &self.t[self.i.saturating_sub(5)..(self.i + 5).min(self.t.len())]),
        }
    }
    fn fields(&mut self, end: char) -> Vec<TyR> { let mut v = vec![]; if self.eat_p(end) { return v; } loop { v.push(self.ty()); if self.eat_p(end) { return v; } self.exp_p(','); } }
    pub fn num(&mut self) -> u64 { match self.next() { Tok::N(s) => s.parse().unwrap_or_else(|_| panic!("num {s}")), t => panic!("num {:?}", t) } }
    pub fn zero(ty: &Ty) -> Val { match ty { Ty::Arr(n, t) | Ty::Vec(n, t) => Val::A(Rc::new(vec![Self::zero(t); *n as usize])), Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| Self::zero(t)).collect())), Ty::Void | Ty::Meta | Ty::Label => Val::I(0, 1), t => Val::I(0, t.bits()) } }
    /// "+inf", "-nan", "nan(0x..)" and "snan(0x..)": infinities and the mantissa of what is not a number
    fn special(&mut self, ty: &Ty, s: &str) -> Val {
        let w = if *ty == Ty::F32 { 32 } else { 64 };
        let (mant, exp) = if w == 32 { (23, 0xffu128) } else { (52, 0x7ffu128) };
        let neg = s.starts_with('-'); let name = s.trim_start_matches(['+', '-']);
        let mut pay = None;
        if self.eat_p('(') { if let Tok::N(h) = self.next() { pay = Some(u128::from_str_radix(h.trim_start_matches("0x"), 16).unwrap()); } self.exp_p(')'); }
        let quiet = 1u128 << (mant - 1);
        let m = match name { "inf" => 0, "snan" => pay.unwrap_or(1), "nan" | "qnan" => quiet | pay.unwrap_or(0), _ => panic!("float constant {s}") };
        Val::I((neg as u128) << (w - 1) | exp << mant | m, w)
    }
    /// A constant (no register) of the given type.
    pub fn konst(&mut self, ty: &Ty) -> Val {
        match self.next() {
            Tok::N(s) if matches!(ty, Ty::F32 | Ty::F64) && s.trim_start_matches(['+', '-']).starts_with(|c: char| c.is_ascii_alphabetic()) => self.special(ty, &s),
            Tok::W(s) if matches!(ty, Ty::F32 | Ty::F64) && matches!(s.as_str(), "nan" | "snan" | "qnan" | "inf") => self.special(ty, &s),
            Tok::N(s) => match ty {
                Ty::F32 => Val::I((fnum(&s) as f32).to_bits() as u128, 32),
                Ty::F64 => Val::I(fnum(&s).to_bits() as u128, 64),
                _ => { let w = ty.bits(); let v = if let Some(r) = s.strip_prefix('-') { (r.parse::<u128>().unwrap()).wrapping_neg() } else { s.parse::<u128>().unwrap_or_else(|_| panic!("int {s}")) }; Val::I(v & crate::term::mask(w), w) }
            },
            Tok::C(v) => Val::A(Rc::new(v.into_iter().map(|b| Val::I(b as u128, 8)).collect())),
            Tok::G(n) => Val::I(self.m.sym_addr(&n) as u128, 64),
            Tok::P('[') => { let mut v = vec![]; while !self.eat_p(']') { let t = self.ty(); v.push(self.konst(&t)); self.eat_p(','); } Val::A(Rc::new(v)) }
            Tok::P('{') => { let mut v = vec![]; while !self.eat_p('}') { let t = self.ty(); v.push(self.konst(&t)); self.eat_p(','); } Val::A(Rc::new(v)) }
            Tok::P('<') => {
                if self.eat_p('{') { let mut v = vec![]; while !self.eat_p('}') { let t = self.ty(); v.push(self.konst(&t)); self.eat_p(','); } self.exp_p('>'); Val::A(Rc::new(v)) }
                else { let mut v = vec![]; while !self.eat_p('>') { let t = self.ty(); v.push(self.konst(&t)); self.eat_p(','); } Val::A(Rc::new(v)) }
            }
            Tok::W(w) => match w.as_str() {
                "true" => Val::I(1, 1), "false" => Val::I(0, 1), "null" => Val::I(0, 64), "none" => Val::I(0, 1),
                "undef" | "poison" | "zeroinitializer" => Self::zero(ty),
                "splat" => { self.exp_p('('); let t = self.ty(); let v = self.konst(&t); self.exp_p(')'); Val::A(Rc::new(vec![v; ty.count() as usize])) }
                "getelementptr" => {
                    while let Some(Tok::W(x)) = self.peek() { let _ = x; self.i += 1; if self.is_p('(') && matches!(&self.t[self.i - 1], Tok::W(y) if y == "inrange") { self.skip_paren(); } }
                    self.exp_p('('); let t = self.ty(); self.exp_p(','); let bt = self.ty(); let b = self.konst(&bt);
                    let mut a = cint(&b) as u64; let mut ct = t; let mut first = true;
                    while self.eat_p(',') { let it = self.ty(); let iv = self.konst(&it); let k = crate::term::sext(cint(&iv), it.bits()) as i64;
                        if first { a = a.wrapping_add((k * ct.size() as i64) as u64); first = false; } else { let (o, t2) = if let Ty::Struct(..) = &*ct { ct.field(k as u64) } else { let e = ct.elem(0); ((k * e.size() as i64) as u64, e) }; a = a.wrapping_add(o); ct = t2; } }
                    self.exp_p(')'); Val::I(a as u128, 64)
                }
                "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "zext" | "sext" | "addrspacecast" => { while let Some(Tok::W(_)) = self.peek() { self.i += 1; } self.exp_p('('); let t = self.ty(); let v = self.konst(&t); assert!(self.eat_w("to")); let t2 = self.ty(); self.exp_p(')'); let w = t2.bits(); let x = if w.to_string() != "" && matches!(&*w.to_string(), _) && t.bits() < w && self.t.iter().any(|_| false) { cint(&v) } else { cint(&v) }; Val::I(x & crate::term::mask(w), w) }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => { while let Some(Tok::W(_)) = self.peek() { self.i += 1; } self.exp_p('('); let t = self.ty(); let a = self.konst(&t); self.exp_p(','); let t2 = self.ty(); let b = self.konst(&t2); self.exp_p(')'); let (a, b) = (cint(&a), cint(&b)); let r = match w.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, "shl" => a << b, _ => a >> b }; Val::I(r & crate::term::mask(t.bits()), t.bits()) }
                "blockaddress" => { self.skip_paren(); Val::I(0, 64) }
                "asm" => Val::I(0, 64),
                _ => { if matches!(ty, Ty::F32 | Ty::F64) && w.starts_with('f') { // f0x... literal forms
                        let h = u64::from_str_radix(w.trim_start_matches("f0x"), 16).unwrap(); return if *ty == Ty::F32 { Val::I((h & 0xffffffff) as u128, 32) } else { Val::I(h as u128, 64) }; }
                    panic!("const {w}") }
            },
            Tok::M => Val::I(0, 1),
            t => panic!("const at {:?} ctx {:?}", t, &self.t[self.i.saturating_sub(8)..(self.i + 5).min(self.t.len())]),
        }
    }
}
pub fn cint(v: &Val) -> u128 { match v { Val::I(x, _) => *x, _ => panic!("non-integer constant") } }
fn is_ty_word(w: &str) -> bool { matches!(w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "fp128" | "x86_fp80") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit())) }
fn fnum(s: &str) -> f64 { if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("hexfloat {s}"))) } else { s.parse().unwrap_or_else(|_| panic!("float {s}")) } }

impl Module {
    pub fn load(path: &str) -> Module {
        let src: &'static str = Box::leak(std::fs::read_to_string(path).expect("read IR").into_boxed_str());
        let mut m = Module { src, types: HashMap::new(), globals: vec![], gmap: HashMap::new(), gslot: vec![], fns: vec![], fmap: HashMap::new(), aliases: HashMap::new(), noret_attr: Default::default() };
        let mut pos = 0;
        let mut glines = vec![];
        let mut flines = vec![];
        while pos < src.len() {
            let end = src[pos..].find('\n').map(|e| pos + e).unwrap_or(src.len());
            let line = &src[pos..end];
            if line.starts_with('@') { glines.push((pos, end)); }
            else if line.starts_with('%') && line.contains(" = type ") { let t = lex(line); let n = if let Tok::L(n) = &t[0] { n.clone() } else { panic!() }; let ty = { let mut c = Cur { t: &t, i: 3, m: &m }; if c.is_w("opaque") { Rc::new(Ty::Void) } else { c.ty() } }; m.types.insert(n, ty); }
            else if line.starts_with("attributes #") { let id: u32 = line[12..].split(' ').next().unwrap().parse().unwrap(); if line.split_whitespace().any(|w| w == "noreturn") { m.noret_attr.insert(id); } }
            else if line.starts_with("declare ") { flines.push((pos, end, end)); }
            else if line.starts_with("define ") { let e = src[end..].find("\n}").map(|e| end + e).unwrap(); flines.push((pos, end, e)); pos = e + 3; continue; }
            pos = end + 1;
        }
        for (s, h, e) in flines {
            let line = &src[s..h];
            let at = line.find('@').unwrap();
            let t = lex(&line[at..]);
            let name = if let Tok::G(n) = &t[0] { n.clone() } else { panic!("fn name {line}") };
            let noret = t.iter().any(|x| match x { Tok::Attr(a) => m.noret_attr.contains(a), Tok::W(w) => w == "noreturn", _ => false });
            let idx = m.fns.len();
            m.fns.push(FnInfo { name: name.clone(), def: if line.starts_with("define") { Some((s, e)) } else { None }, noreturn: noret, addr: F_BASE + (idx as u64) * 16 });
            m.fmap.insert(name, idx);
        }
        // globals: two passes (address assignment needs the type only)
        for (s, e) in glines {
            let line = &src[s..e];
            // constants with huge initialisers: the type comes before the initialiser, lex the head only
            let head = &line[..line.len().min(4000)];
            if let Some(i) = head.find(" alias ") { if i < head.find('"').unwrap_or(usize::MAX).max(i + 1) && head[..i].contains(" = ") { let t = lex(head); let n = if let Tok::G(n) = &t[0] { n.clone() } else { panic!() }; let tgt = t.iter().skip(1).filter_map(|x| if let Tok::G(n) = x { Some(n.clone()) } else { None }).next(); if let Some(x) = tgt { m.aliases.insert(n, x); } continue; } }
            // find the `global` / `constant` keyword
            let kw = [" global ", " constant "].iter().filter_map(|k| head.find(k).map(|i| (i, k.len(), *k == " constant "))).min_by_key(|x| x.0).unwrap_or_else(|| panic!("global {head}"));
            let nm = if head.as_bytes()[1] == b'"' { head[2..].split('"').next().unwrap().to_string() } else { head[1..].split(' ').next().unwrap().to_string() };
            let pre = &head[..kw.0];
            let tl = ty_len(&line[kw.0 + kw.1..]);
            let tts = lex(&line[kw.0 + kw.1..kw.0 + kw.1 + tl]);
            let ty = { let mut c = Cur { t: &tts, i: 0, m: &m }; c.ty() };
            let ext = pre.contains(" external ") || pre.contains(" extern_weak ");
            let slot = m.gslot.len() as u64;
            let addr = G_BASE + slot * GSLOT + SLOT_OFF;
            let gi = m.globals.len() as u32;
            let n = (SLOT_OFF + ty.size()) / GSLOT + 1;
            for _ in 0..n { m.gslot.push(gi); }
            m.gmap.insert(nm.clone(), gi as usize);
            m.globals.push(Global { name: nm, line: (s, e), ty, is_const: kw.2, addr, ext, init_at: s + kw.0 + kw.1 + tl, tls: pre.contains("thread_local") });
        }
        m
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(a) = self.aliases.get(n) { return self.sym_addr(&a.clone()); }
        if let Some(i) = self.fmap.get(n) { return if self.fns[*i].def.is_none() && matches!(n, "gettid" | "__cxa_thread_atexit_impl" | "statx" | "__pthread_get_minstack") { 0 } else { self.fns[*i].addr }; }
        if let Some(i) = self.gmap.get(n) { return self.globals[*i].addr; }
        panic!("unknown symbol {n}")
    }
    pub fn global_init(&self, g: usize) -> Option<Val> {
        let gl = &self.globals[g];
        if gl.ext { return None; }
        let txt = &self.src[gl.init_at..gl.line.1];
        let t = lex(txt);
        let mut c = Cur { t: &t, i: 0, m: self };
        Some(c.konst(&gl.ty))
    }
    pub fn resolve_fn(&self, n: &str) -> Option<usize> { if let Some(i) = self.fmap.get(n) { return Some(*i); } self.aliases.get(n).and_then(|a| self.fmap.get(a)).copied() }

    pub fn parse_fn(&self, idx: usize) -> Func {
        let (s, e) = self.fns[idx].def.unwrap();
        let text = &self.src[s..e];
        let mut lines = text.lines();
        let head = lines.next().unwrap();
        let at = head.find('@').unwrap();
        let ht = lex(&head[at..]);
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = vec![];
        let mut unnamed = 0;
        {
            let mut c = Cur { t: &ht, i: 1, m: self };
            c.exp_p('(');
            while !c.eat_p(')') {
                if c.peek() == Some(&Tok::Dots) { c.i += 1; continue; }
                let _ = c.ty();
                let mut name = None;
                loop {
                    match c.peek() { Some(Tok::P(',')) => { c.i += 1; break; } Some(Tok::P(')')) => break, Some(Tok::P('(')) => c.skip_paren(), Some(Tok::L(n)) => { name = Some(n.clone()); c.i += 1; } None => panic!(), _ => c.i += 1 }
                }
                let n = name.unwrap_or_else(|| unnamed.to_string());
                if n.bytes().all(|b| b.is_ascii_digit()) { unnamed += 1; }
                let r = regs.len() as u32;
                regs.insert(n, r);
                params.push(r);
            }
        }
        // gather logical lines
        let mut logical: Vec<String> = vec![];
        let mut it = lines.peekable();
        while let Some(l) = it.next() {
            let l = if l.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '"' || c == '_' || c == '.' || c == '-' || c == '$') { l.split(';').next().unwrap() } else { l };
            if l.trim().is_empty() || l.starts_with(';') { continue; }
            let mut s = l.to_string();
            let tl = s.trim_start();
            if tl.starts_with("switch ") && !s.contains(']') { for n in it.by_ref() { s.push(' '); s.push_str(n.trim()); if n.trim_start().starts_with(']') { break; } } }
            else if tl.contains("invoke ") && !s.contains(" unwind label") { s.push(' '); s.push_str(it.next().unwrap().trim()); }
            else if tl.contains("= landingpad") { while it.peek().map_or(false, |n| n.starts_with("          ")) { it.next(); } }
            logical.push(s);
        }
        let mut bmap: HashMap<String, u32> = HashMap::new();
        let mut nb = 0u32;
        let is_label = |l: &str| !l.starts_with(' ') && l.trim_end().ends_with(':');
        let first_label = logical.first().map_or(false, |l| is_label(l));
        let mut names = vec![];
        if !first_label { let n = unnamed.to_string(); bmap.insert(n.clone(), 0); names.push(n); nb = 1; }
        for l in &logical { if is_label(l) { let n = l.trim_end().trim_end_matches(':').trim_matches('"').to_string(); bmap.insert(n.clone(), nb); names.push(n); nb += 1; } }
        let mut blocks: Vec<Block> = names.into_iter().map(|n| Block { name: n, phis: vec![], insts: vec![] }).collect();
        let mut cur = 0usize;
        let mut ninsts = 0;
        let mut seen = !first_label;
        for l in &logical {
            if is_label(l) { if seen { cur += 1; } seen = true; continue; }
            let t = lex(l);
            if t.is_empty() { continue; }
            let mut p = P { c: Cur { t: &t, i: 0, m: self }, regs: &mut regs, b: &bmap };
            ninsts += 1;
            match p.inst() { Ok(i) => blocks[cur].insts.push(i), Err(phi) => blocks[cur].phis.push(phi) }
        }
        Func { name: self.fns[idx].name.clone(), params, nregs: regs.len(), blocks, ninsts, idx }
    }
}
/// textual length of a type at the start of `s`
fn ty_len(s: &str) -> usize {
    let b = s.as_bytes();
    let mut d = 0i32;
    let mut i = 0;
    while i < b.len() {
        match b[i] { b'[' | b'{' | b'<' => d += 1, b']' | b'}' | b'>' => { d -= 1; if d == 0 { return i + 1; } } b' ' | b',' if d == 0 => return i, b'%' if i + 1 < b.len() && b[i + 1] == b'"' => { i += 2; while b[i] != b'"' { i += 1; } } _ => {} }
        i += 1;
    }
    i
}

struct P<'a> { c: Cur<'a>, regs: &'a mut HashMap<String, u32>, b: &'a HashMap<String, u32> }
impl<'a> P<'a> {
    fn reg(&mut self, n: &str) -> u32 { if let Some(r) = self.regs.get(n) { return *r; } let r = self.regs.len() as u32; self.regs.insert(n.to_string(), r); r }
    fn opd(&mut self, ty: &Ty) -> Opd { if let Some(Tok::L(n)) = self.c.peek() { let n = n.clone(); self.c.i += 1; return Opd::R(self.reg(&n)); } Opd::V(self.c.konst(ty)) }
    fn flags(&mut self) { while let Some(Tok::W(w)) = self.c.peek() { if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "samesign" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "weak" | "inrange") { self.c.i += 1; if self.c.is_p('(') { self.c.skip_paren(); } } else { break; } } }
    fn skip_attrs_to_type(&mut self) { while !self.c.is_type() { match self.c.peek() { Some(Tok::P('(')) => self.c.skip_paren(), None => panic!("attrs"), _ => self.c.i += 1 } } }
    fn label(&mut self) -> u32 { assert!(self.c.eat_w("label"), "label expected {:?}", self.c.t); if let Tok::L(n) = self.c.next() { *self.b.get(&n).unwrap_or_else(|| panic!("block {n}")) } else { panic!("label") } }
    fn ty_opd(&mut self) -> (TyR, Opd) { let t = self.c.ty(); let o = self.opd(&t); (t, o) }
    fn inst(&mut self) -> Result<Inst, Phi> {
        let mut dst = None;
        if let (Some(Tok::L(n)), Some(Tok::P('='))) = (self.c.t.first(), self.c.t.get(1)) { let n = n.clone(); self.c.i = 2; dst = Some(self.reg(&n)); }
        let w = match self.c.next() { Tok::W(w) => w, t => panic!("inst {:?} {:?}", t, self.c.t) };
        let d = dst.unwrap_or(u32::MAX);
        let bin = |b| Some(b);
        let b = match w.as_str() {
            "add" => bin(Bin::Add), "sub" => bin(Bin::Sub), "mul" => bin(Bin::Mul), "udiv" => bin(Bin::UDiv), "sdiv" => bin(Bin::SDiv), "urem" => bin(Bin::URem), "srem" => bin(Bin::SRem),
            "and" => bin(Bin::And), "or" => bin(Bin::Or), "xor" => bin(Bin::Xor), "shl" => bin(Bin::Shl), "lshr" => bin(Bin::LShr), "ashr" => bin(Bin::AShr),
            "fadd" => bin(Bin::FAdd), "fsub" => bin(Bin::FSub), "fmul" => bin(Bin::FMul), "fdiv" => bin(Bin::FDiv), "frem" => bin(Bin::FRem), _ => None,
        };
        if let Some(b) = b { self.flags(); let (t, x) = self.ty_opd(); self.c.exp_p(','); let y = self.opd(&t); return Ok(Inst::Bin(b, d, t, x, y)); }
        let cast = match w.as_str() { "trunc" => Some(Cast::Trunc), "zext" => Some(Cast::ZExt), "sext" => Some(Cast::SExt), "ptrtoint" => Some(Cast::PtrToInt), "inttoptr" => Some(Cast::IntToPtr), "bitcast" | "addrspacecast" => Some(Cast::Bitcast), "fptrunc" => Some(Cast::FpTrunc), "fpext" => Some(Cast::FpExt), "fptoui" => Some(Cast::FpToUi), "fptosi" => Some(Cast::FpToSi), "uitofp" => Some(Cast::UiToFp), "sitofp" => Some(Cast::SiToFp), _ => None };
        if let Some(k) = cast { self.flags(); let (t, x) = self.ty_opd(); assert!(self.c.eat_w("to")); let t2 = self.c.ty(); return Ok(Inst::Cast(k, d, t, x, t2)); }
        Ok(match w.as_str() {
            "fneg" => { self.flags(); let (t, x) = self.ty_opd(); Inst::FNeg(d, t, x) }
            "icmp" => { self.flags(); let p = match self.c.next() { Tok::W(p) => p, _ => panic!() }; let p = match p.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!("pred {p}") }; let (t, x) = self.ty_opd(); self.c.exp_p(','); let y = self.opd(&t); Inst::ICmp(p, d, t, x, y) }
            "fcmp" => { self.flags(); let p = match self.c.next() { Tok::W(p) => p, _ => panic!() }; let (t, x) = self.ty_opd(); self.c.exp_p(','); let y = self.opd(&t); Inst::FCmp(p, d, t, x, y) }
            "load" => { let at = self.c.eat_w("atomic"); self.flags(); let t = self.c.ty(); self.c.exp_p(','); let (_, p) = self.ty_opd(); Inst::Load(d, t, p, at) }
            "store" => { let at = self.c.eat_w("atomic"); self.flags(); let (t, v) = self.ty_opd(); self.c.exp_p(','); let (_, p) = self.ty_opd(); Inst::Store(t, v, p, at) }
            "alloca" => { self.c.eat_w("inalloca"); let t = self.c.ty(); let mut n = Opd::V(Val::I(1, 64)); let mut al = t.align(); while self.c.eat_p(',') { if self.c.eat_w("align") { al = self.c.num(); } else if self.c.is_type() { let (_, o) = self.ty_opd(); n = o; } else { break; } } Inst::Alloca(d, t.size(), al, n) }
            "getelementptr" => {
                self.flags();
                let t = self.c.ty(); self.c.exp_p(','); let (bt, base) = self.ty_opd();
                if let Ty::Vec(..) = &*bt { return Ok(Inst::Unsupported("vector gep".into())); }
                let mut off = 0i64; let mut dynidx = vec![]; let mut ct = t; let mut first = true;
                while self.c.eat_p(',') {
                    if !self.c.is_type() { break; }
                    let (it, o) = self.ty_opd();
                    if let Ty::Vec(..) = &*it { return Ok(Inst::Unsupported("vector gep".into())); }
                    let (stride, nt, cst) = if first { (ct.size() as i64, ct.clone(), None) } else if let Ty::Struct(..) = &*ct { let k = match &o { Opd::V(v) => cint(v) as u64, _ => panic!("struct idx") }; let (fo, ft) = ct.field(k); (0, ft, Some(fo as i64)) } else { let e = ct.elem(0); (e.size() as i64, e, None) };
                    first = false;
                    match (cst, &o) { (Some(k), _) => off += k, (None, Opd::V(v)) => off = off.wrapping_add((crate::term::sext(cint(v), it.bits()) as i64).wrapping_mul(stride)), _ => dynidx.push((o, it.bits(), stride)) }
                    ct = nt;
                }
                Inst::Gep(d, base, off, dynidx)
            }
            "select" => { self.flags(); let (ct, c) = self.ty_opd(); self.c.exp_p(','); let (t, x) = self.ty_opd(); self.c.exp_p(','); let (_, y) = self.ty_opd(); Inst::Select(d, ct, t, c, x, y) }
            "phi" => { self.flags(); let t = self.c.ty(); let mut inc = vec![]; loop { self.c.exp_p('['); let v = self.opd(&t); self.c.exp_p(','); let l = match self.c.next() { Tok::L(n) => n, _ => panic!() }; self.c.exp_p(']'); inc.push((*self.b.get(&l).unwrap_or_else(|| panic!("phi block {l}")), v)); if self.c.is_p(',') && self.c.t.get(self.c.i + 1) == Some(&Tok::P('[')) { self.c.i += 1; } else { break; } } return Err(Phi { dst: d, inc }); }
            "tail" | "musttail" | "notail" => { self.c.next(); self.call(dst, false) }
            "call" => self.call(dst, false),
            "invoke" => self.call(dst, true),
            "extractvalue" => { let (t, x) = self.ty_opd(); let mut idx = vec![]; while self.c.eat_p(',') { if let Some(Tok::N(_)) = self.c.peek() { idx.push(self.c.num()); } else { break; } } Inst::Extract(d, t, x, idx) }
            "insertvalue" => { let (t, x) = self.ty_opd(); self.c.exp_p(','); let (_, v) = self.ty_opd(); let mut idx = vec![]; while self.c.eat_p(',') { if let Some(Tok::N(_)) = self.c.peek() { idx.push(self.c.num()); } else { break; } } Inst::Insert(d, t, x, v, idx) }
            "extractelement" => { let (t, x) = self.ty_opd(); self.c.exp_p(','); let (_, i) = self.ty_opd(); Inst::ExtElem(d, t, x, i) }
            "insertelement" => { let (t, x) = self.ty_opd(); self.c.exp_p(','); let (_, v) = self.ty_opd(); self.c.exp_p(','); let (_, i) = self.ty_opd(); Inst::InsElem(d, t, x, v, i) }
            "shufflevector" => { let (t, x) = self.ty_opd(); self.c.exp_p(','); let (_, y) = self.ty_opd(); self.c.exp_p(','); let mt = self.c.ty(); let m = self.c.konst(&mt); let mm = if let Val::A(v) = m { v.iter().map(|k| cint(k) as i64).collect() } else { panic!() }; Inst::Shuffle(d, t, x, y, mm) }
            "atomicrmw" => { self.flags(); let op = match self.c.next() { Tok::W(o) => o, _ => panic!() }; let (_, p) = self.ty_opd(); self.c.exp_p(','); let (t, v) = self.ty_opd(); Inst::Rmw(op, d, t, p, v) }
            "cmpxchg" => { self.flags(); let (_, p) = self.ty_opd(); self.c.exp_p(','); let (t, a) = self.ty_opd(); self.c.exp_p(','); let (_, b) = self.ty_opd(); Inst::CmpXchg(d, t, p, a, b) }
            "fence" => Inst::Fence,
            "freeze" => { let (t, x) = self.ty_opd(); Inst::Freeze(d, t, x) }
            "br" => { if self.c.is_w("label") { Inst::Br(self.label()) } else { let (_, c) = self.ty_opd(); self.c.exp_p(','); let a = self.label(); self.c.exp_p(','); let b = self.label(); Inst::CondBr(c, a, b) } }
            "switch" => { let (t, x) = self.ty_opd(); self.c.exp_p(','); let df = self.label(); self.c.exp_p('['); let mut cs = vec![]; while !self.c.eat_p(']') { let ct = self.c.ty(); let v = cint(&self.c.konst(&ct)); self.c.exp_p(','); let l = self.label(); cs.push((v, l)); } Inst::Switch(t, x, df, cs) }
            "ret" => { let t = self.c.ty(); if *t == Ty::Void { Inst::Ret(None) } else { let o = self.opd(&t); Inst::Ret(Some((t, o))) } }
            "unreachable" => Inst::Unreachable,
            _ => Inst::Unsupported(w),
        })
    }
    fn call(&mut self, dst: Option<u32>, invoke: bool) -> Inst {
        self.skip_attrs_to_type();
        let ret = self.c.ty();
        if self.c.is_p('(') { self.c.skip_paren(); }
        let mut noreturn = false;
        let callee = match self.c.next() {
            Tok::G(n) => Callee::Direct(n),
            Tok::L(n) => Callee::Indirect(Opd::R(self.reg(&n))),
            Tok::W(w) if w == "asm" => { let mut s = String::new(); while !self.c.is_p('(') { if let Tok::S(x) = self.c.next() { s.push_str(&x); s.push('|'); } } Callee::Asm(s) }
            Tok::W(_) => { self.c.i -= 1; let v = self.c.konst(&Ty::Ptr); Callee::Indirect(Opd::V(v)) }
            t => panic!("callee {:?} in {:?}", t, self.c.t),
        };
        self.c.exp_p('(');
        let mut args = vec![];
        while !self.c.eat_p(')') {
            let t = self.c.ty();
            if let Ty::Meta = &*t { // metadata argument: skip to , or )
                let mut dep = 0; loop { match self.c.peek() { Some(Tok::P('(')) => dep += 1, Some(Tok::P(')')) if dep == 0 => break, Some(Tok::P(')')) => dep -= 1, Some(Tok::P(',')) if dep == 0 => break, _ => {} } self.c.i += 1; }
                args.push((t, Opd::V(Val::I(0, 1))));
            } else {
                loop {
                    match self.c.peek() {
                        Some(Tok::W(w)) if w == "align" => { self.c.i += 2; }
                        Some(Tok::W(w)) if !matches!(w.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "add" | "sub" | "xor" | "mul" | "asm" | "blockaddress") => { self.c.i += 1; if self.c.is_p('(') { self.c.skip_paren(); } }
                        _ => break,
                    }
                }
                let o = self.opd(&t);
                args.push((t, o));
            }
            self.c.eat_p(',');
        }
        let mut to = None;
        while let Some(t) = self.c.peek() {
            match t {
                Tok::Attr(a) => { if self.c.m.noret_attr.contains(a) { noreturn = true; } self.c.i += 1; }
                Tok::W(w) if w == "to" && invoke => { self.c.i += 1; to = Some(self.label()); break; }
                Tok::W(w) if w == "noreturn" => { noreturn = true; self.c.i += 1; }
                _ => self.c.i += 1,
            }
        }
        if let Callee::Direct(n) = &callee { if let Some(i) = self.c.m.resolve_fn(n) { if self.c.m.fns[i].noreturn { noreturn = true; } } }
        Inst::Call { dst, ret, callee, args, noreturn, to }
    }
}
