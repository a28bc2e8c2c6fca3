//! Symbolic executor over the parsed IR.
use crate::ir::*;
use crate::term::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj { pub size: u64, pub data: Rc<Vec<u8>>, pub sym: Option<Rc<Vec<Sb>>>, pub alive: bool, pub ro: bool, pub ext: bool }
#[derive(Clone)]
enum Slot { O(Rc<Obj>), Cont(u32) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Loc { G(u32), H(u32), S(u32, u32) }

#[derive(Clone)]
struct Frame { f: Rc<Func>, blk: u32, ip: u32, regs: Vec<Val>, smark: u32, ret_to: Option<u32>, cont: Option<u32> }

#[derive(Clone)]
pub enum Inp { Var(T, u16), Choice(u64) }

#[derive(Clone, Default)]
struct Thread { frames: Vec<Frame>, stack: Vec<Rc<Obj>>, id: u32, done: bool, blocked_on: Option<u32> }

#[derive(Clone)]
pub struct State {
    th: Thread,
    others: Vec<Thread>,
    nthreads: u32,
    heap: Vec<Slot>,
    gov: HashMap<u32, Rc<Obj>>,
    pub pc: Vec<T>,
    known: Rc<HashSet<T>>,
    pub model: Rc<Model>,
    pub inputs: Vec<Inp>,
    pub obs: Vec<Val>,
    region: Rc<String>,
    steps: u64,
    depth: u32,
    switches: u32,
    no_switch: bool,
    sched: Vec<(u64, u32)>,
    points: u64,
}

pub enum Stop { End, Kill, Panic(String, String), Mem(String), Unsup(String), Steps }
type Res<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Violation { pub kind: String, pub label: String, pub region: String, pub loc: String, pub stack: Vec<String>, pub inputs: Vec<(u16, u128)>, pub obs: Vec<u128>, pub sched: Vec<(u64, u32)> }

pub struct Cfg { pub max_steps: u64, pub deadline: Instant, pub max_paths: u64, pub samples: usize, pub params: Vec<u64>, pub max_viol: usize, pub switch_bound: u32, pub verbose: bool, pub seed: u64, pub quiet_fmt: bool }

pub struct Eng {
    pub m: &'static Module,
    pub ar: Arena,
    pub z: Z3,
    funcs: Vec<Option<Rc<Func>>>,
    gbase: Vec<Option<Rc<Obj>>>,
    work: Vec<State>,
    pub cfg: Cfg,
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub instrs: u64,
    pub asserts: u64,
    pub assert_unsat: u64,
    pub asserts_by: BTreeMap<String, u64>,
    pub panics: u64,
    pub truncated: BTreeMap<String, u64>,
    pub viol: Vec<Violation>,
    pub viol_count: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<(u16, u128)>, Vec<u128>)>,
    pub called: BTreeSet<usize>,
    fmt_w: HashMap<usize, u16>,
    pub stubs: BTreeSet<String>,
    pub suspects: Vec<Violation>,
    uf_new: Vec<(String, T, T, bool)>,
    rng: u64,
}

/// A symbolic byte: `(term << 8) | byte index`, 0 when the byte is concrete.
pub type Sb = u64;
const NOTERM: Sb = 0;

impl Eng {
    pub fn new(m: &'static Module, cfg: Cfg, z: Z3) -> Eng {
        let nf = m.fns.len();
        let ng = m.globals.len();
        let rng = cfg.seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
        Eng { m, ar: Arena::new(), z, funcs: vec![None; nf], gbase: vec![None; ng], work: vec![], cfg, paths: 0, killed: 0, forks: 0, instrs: 0, asserts: 0, assert_unsat: 0, asserts_by: BTreeMap::new(), panics: 0, truncated: BTreeMap::new(), viol: vec![], viol_count: BTreeMap::new(), covers: BTreeMap::new(), samples: vec![], called: BTreeSet::new(), fmt_w: HashMap::new(), stubs: BTreeSet::new(), suspects: vec![], uf_new: vec![], rng }
    }
    fn func(&mut self, i: usize) -> Rc<Func> {
        if let Some(f) = &self.funcs[i] { return f.clone(); }
        let f = Rc::new(self.m.parse_fn(i));
        self.called.insert(i);
        self.funcs[i] = Some(f.clone());
        f
    }
    // ---- values -------------------------------------------------------
    fn t(&mut self, v: &Val) -> T { match v { Val::I(x, w) => self.ar.konst(*x, *w), Val::S(t) => *t, Val::A(_) => panic!("aggregate as scalar") } }
    fn v(&self, t: T) -> Val { let n = &self.ar.nodes[t as usize]; if n.op == Op::Const { Val::I(n.k, n.w) } else { Val::S(t) } }
    fn kv(x: u128, w: u16) -> Val { Val::I(x & mask(w), w) }
    fn width(&self, v: &Val) -> u16 { match v { Val::I(_, w) => *w, Val::S(t) => self.ar.w(*t), _ => panic!("width") } }
    fn bin(&mut self, op: Op, a: &Val, b: &Val) -> Val {
        if let (Val::I(x, w), Val::I(y, _)) = (a, b) {
            let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FLt | Op::FLe | Op::FEq);
            let n = Node { op, w: if cmp { 1 } else { *w }, a: 0, b: 0, c: 0, k: 0 };
            return Val::I(apply(&n, *w, *x, *y, 0, *w), n.w);
        }
        let (x, y) = (self.t(a), self.t(b));
        let r = self.ar.bin(op, x, y);
        self.v(r)
    }
    fn notv(&mut self, a: &Val) -> Val { match a { Val::I(x, w) => Self::kv(!*x, *w), _ => { let t = self.t(a); let r = self.ar.not(t); self.v(r) } } }
    fn ite(&mut self, c: &Val, a: &Val, b: &Val) -> Val {
        match c { Val::I(k, _) => return if *k != 0 { a.clone() } else { b.clone() }, _ => {} }
        if let (Val::A(x), Val::A(y)) = (a, b) { let (x, y) = (x.clone(), y.clone()); return Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.ite(c, p, q)).collect())); }
        let (k, x, y) = (self.t(c), self.t(a), self.t(b));
        let r = self.ar.ite(k, x, y);
        self.v(r)
    }
    fn zext(&mut self, a: &Val, w: u16) -> Val { match a { Val::I(x, _) => Val::I(*x, w), _ => { let t = self.t(a); let r = self.ar.zext(t, w); self.v(r) } } }
    fn sextv(&mut self, a: &Val, w: u16) -> Val { match a { Val::I(x, aw) => Self::kv(sext(*x, *aw) as u128, w), _ => { let t = self.t(a); let r = self.ar.sext(t, w); self.v(r) } } }
    fn extract(&mut self, a: &Val, lo: u16, w: u16) -> Val { match a { Val::I(x, _) => Self::kv(*x >> lo, w), _ => { let t = self.t(a); let r = self.ar.extract(t, lo, w); self.v(r) } } }
    fn concat(&mut self, hi: &Val, lo: &Val) -> Val { let (a, b) = (self.t(hi), self.t(lo)); let r = self.ar.concat(a, b); self.v(r) }
    fn to_bits(&mut self, v: &Val) -> Val { match v { Val::A(l) => { let l = l.clone(); let mut r = self.to_bits(&l[0]); for x in l[1..].iter() { let b = self.to_bits(x); r = self.concat(&b, &r); } r } _ => v.clone() } }
    fn from_bits(&mut self, v: &Val, ty: &Ty) -> Val { match ty { Ty::Vec(n, t) => { let w = t.bits(); Val::A(Rc::new((0..*n).map(|i| self.extract(v, i as u16 * w, w)).collect())) } _ => v.clone() } }

    // ---- memory -------------------------------------------------------
    fn locate(&self, st: &State, a: u64) -> Option<(Loc, u64)> {
        let low = a & ((1 << 40) - 1);
        let slot = (low / SLOT) as usize;
        let (loc, base) = match a >> 40 {
            1 => { let slot = (low / GSLOT) as usize; let g = *self.m.gslot.get(slot)?; (Loc::G(g), self.m.globals[g as usize].addr) }
            2 => { let mut s = slot; if let Slot::Cont(k) = st.heap.get(s)? { s -= *k as usize; } (Loc::H(s as u32), H_BASE + s as u64 * SLOT + SLOT_OFF) }
            3 => { let tid = (slot >> 16) as u32; let i = (slot & 0xffff) as u32; let th = if st.th.id == tid { &st.th } else { st.others.iter().find(|t| t.id == tid)? }; if i as usize >= th.stack.len() { return None; } (Loc::S(tid, i), S_BASE + slot as u64 * SLOT + SLOT_OFF) }
            _ => return None,
        };
        Some((loc, a.wrapping_sub(base)))
    }
    fn base_of(&self, l: Loc) -> u64 { match l { Loc::G(g) => self.m.globals[g as usize].addr, Loc::H(s) => H_BASE + s as u64 * SLOT + SLOT_OFF, Loc::S(t, i) => S_BASE + (((t as u64) << 16) | i as u64) * SLOT + SLOT_OFF } }
    fn obj(&mut self, st: &State, l: Loc) -> Rc<Obj> {
        match l {
            Loc::H(s) => if let Slot::O(o) = &st.heap[s as usize] { o.clone() } else { unreachable!() },
            Loc::S(t, i) => if st.th.id == t { st.th.stack[i as usize].clone() } else { st.others.iter().find(|x| x.id == t).unwrap().stack[i as usize].clone() },
            Loc::G(g) => { if let Some(o) = st.gov.get(&g) { return o.clone(); } self.gobj(g) }
        }
    }
    fn gobj(&mut self, g: u32) -> Rc<Obj> {
        if let Some(o) = &self.gbase[g as usize] { return o.clone(); }
        let ty = self.m.globals[g as usize].ty.clone();
        let size = ty.size();
        let mut data = vec![0u8; size as usize];
        let init = self.m.global_init(g as usize);
        if let Some(v) = &init { fill(&mut data, 0, &ty, v); }
        let o = Rc::new(Obj { size, data: Rc::new(data), sym: None, alive: true, ro: self.m.globals[g as usize].is_const, ext: init.is_none() });
        self.gbase[g as usize] = Some(o.clone());
        o
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, l: Loc) -> &'a mut Obj {
        match l {
            Loc::H(s) => if let Slot::O(o) = &mut st.heap[s as usize] { Rc::make_mut(o) } else { unreachable!() },
            Loc::S(t, i) => Rc::make_mut(if st.th.id == t { &mut st.th.stack[i as usize] } else { &mut st.others.iter_mut().find(|x| x.id == t).unwrap().stack[i as usize] }),
            Loc::G(g) => { if !st.gov.contains_key(&g) { let o = self.gobj(g); st.gov.insert(g, o); } Rc::make_mut(st.gov.get_mut(&g).unwrap()) }
        }
    }
    fn access(&mut self, st: &State, a: u64, n: u64, write: bool) -> Res<(Loc, u64)> {
        let what = if write { "write" } else { "read" };
        let (l, off) = match self.locate(st, a) { Some(x) => x, None => return Err(Stop::Mem(format!("invalid {what} of {n} bytes at {a:#x}"))) };
        let o = self.obj(st, l);
        if !o.alive { return Err(Stop::Mem(format!("{what} of freed memory ({l:?})"))); }
        if o.ext { return Err(Stop::Unsup(format!("external global {}", if let Loc::G(g) = l { &self.m.globals[g as usize].name } else { "?" }))); }
        if off > o.size || n > o.size - off { return Err(Stop::Mem(format!("out-of-bounds {what} of {n} bytes at offset {} of a {}-byte object ({l:?})", off as i64, o.size))); }
        if write && o.ro { return Err(Stop::Mem(format!("write to constant memory"))); }
        Ok((l, off))
    }
    fn rd_byte(o: &Obj, i: u64) -> (u8, Sb) { (o.data[i as usize], o.sym.as_ref().map_or(NOTERM, |s| s[i as usize])) }
    /// n-byte little-endian read of an object
    fn read_obj(&mut self, o: &Obj, off: u64, n: u64) -> Val {
        let w = (n * 8) as u16;
        let symb = o.sym.as_ref().map_or(false, |s| s[off as usize..(off + n) as usize].iter().any(|x| *x != NOTERM));
        if !symb { let mut v = 0u128; for i in (0..n).rev() { v = (v << 8) | o.data[(off + i) as usize] as u128; } return Val::I(v, w); }
        // a value stored whole comes back whole
        let run = |from: u64, s: &[Sb]| -> u64 { let h = s[from as usize]; if h == NOTERM { return 0; } let mut k = 1; while from + k < off + n && s[(from + k) as usize] == h + k { k += 1; } k };
        {
            let s = o.sym.as_ref().unwrap();
            let mut parts = vec![];
            let mut i = off;
            let mut whole = true;
            while i < off + n {
                let k = run(i, s);
                if k == 0 { let mut c = 0u128; let mut m = 0; while i + m < off + n && s[(i + m) as usize] == NOTERM { c |= (o.data[(i + m) as usize] as u128) << (8 * m); m += 1; } parts.push(self.ar.konst(c, (8 * m) as u16)); i += m; continue; }
                let t = (s[i as usize] >> 8) as T;
                let b = (s[i as usize] & 0xff) as u16;
                let w = self.ar.w(t);
                if b * 8 + (k * 8) as u16 > w { whole = false; break; }
                let e = self.ar.extract(t, b * 8, (k * 8) as u16);
                parts.push(e);
                i += k;
            }
            if whole { let mut r = *parts.last().unwrap(); for p in parts.iter().rev().skip(1) { r = self.ar.concat(r, *p); } return self.v(r); }
        }
        let mut r: Option<T> = None;
        for i in (0..n).rev() {
            let (b, s) = Self::rd_byte(o, off + i);
            let t = if s != NOTERM { self.sb(s) } else { self.ar.konst(b as u128, 8) };
            r = Some(match r { None => t, Some(h) => self.ar.concat(h, t) });
        }
        self.v(r.unwrap())
    }
    /// the 8-bit term of a symbolic byte
    fn sb(&mut self, s: Sb) -> T { let t = (s >> 8) as T; let k = (s & 0xff) as u16; if self.ar.w(t) == 8 { t } else { self.ar.extract(t, 8 * k, 8) } }
    fn write_obj(&mut self, st: &mut State, l: Loc, off: u64, v: &Val, n: u64) {
        let bytes: Vec<(u8, Sb)> = match v {
            Val::I(x, _) => (0..n).map(|i| (((*x >> (8 * i.min(15))) & 0xff) as u8, NOTERM)).collect(),
            _ => { let w = self.width(v); let v = if (w as u64) < n * 8 { self.zext(v, (n * 8) as u16) } else { v.clone() }; let t = self.t(&v); (0..n).map(|i| { let e = self.ar.extract(t, (8 * i) as u16, 8); match self.ar.cv(e) { Some(k) => (k as u8, NOTERM), None => (0, ((t as Sb) << 8) | i) } }).collect() }
        };
        let o = self.obj_mut(st, l);
        Self::put(o, off, &bytes);
    }
    fn put(o: &mut Obj, off: u64, bytes: &[(u8, Sb)]) {
        let anysym = bytes.iter().any(|b| b.1 != NOTERM);
        let data = Rc::make_mut(&mut o.data);
        for (i, b) in bytes.iter().enumerate() { data[off as usize + i] = b.0; }
        if anysym && o.sym.is_none() { o.sym = Some(Rc::new(vec![NOTERM; o.size as usize])); }
        if let Some(s) = &mut o.sym {
            if anysym || s[off as usize..off as usize + bytes.len()].iter().any(|x| *x != NOTERM) { let s = Rc::make_mut(s); for (i, b) in bytes.iter().enumerate() { s[off as usize + i] = b.1; } }
        }
    }
    fn get_bytes(&mut self, st: &State, l: Loc, off: u64, n: u64) -> Vec<(u8, Sb)> { let o = self.obj(st, l); (off..off + n).map(|i| Self::rd_byte(&o, i)).collect() }
    fn load_at(&mut self, st: &State, a: u64, ty: &Ty) -> Res<Val> {
        match ty {
            t if t.is_scalar() => {
                let n = t.store_size();
                let (l, off) = self.access(st, a, n, false)?;
                let o = self.obj(st, l);
                let v = self.read_obj(&o, off, n);
                let w = t.bits();
                Ok(if (w as u64) < n * 8 { self.extract(&v, 0, w) } else { v })
            }
            Ty::Vec(n, t) if t.bits() % 8 != 0 => { let sz = ty.size(); let (l, off) = self.access(st, a, sz, false)?; let o = self.obj(st, l); let v = self.read_obj(&o, off, sz); let w = t.bits(); Ok(Val::A(Rc::new((0..*n).map(|i| self.extract(&v, i as u16 * w, w)).collect()))) }
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => { let mut v = vec![]; for i in 0..ty.count() { let (o, t) = ty.field(i); v.push(self.load_at(st, a.wrapping_add(o), &t)?); } Ok(Val::A(Rc::new(v))) }
            _ => Err(Stop::Unsup(format!("load {:?}", ty))),
        }
    }
    fn store_at(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> Res<()> {
        match ty {
            t if t.is_scalar() => { let n = t.store_size(); let (l, off) = self.access(st, a, n, true)?; self.write_obj(st, l, off, v, n); Ok(()) }
            Ty::Vec(_, t) if t.bits() % 8 != 0 => { let sz = ty.size(); let (l, off) = self.access(st, a, sz, true)?; let b = self.to_bits(v); self.write_obj(st, l, off, &b, sz); Ok(()) }
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => { self.access(st, a, ty.size(), true)?; if let Val::A(e) = v { let e = e.clone(); for (i, x) in e.iter().enumerate() { let (o, t) = ty.field(i as u64); self.store_at(st, a.wrapping_add(o), &t, x)?; } } Ok(()) }
            _ => Err(Stop::Unsup(format!("store {:?}", ty))),
        }
    }
    /// Resolve a symbolic address to one object; returns candidate byte offsets.
    fn sym_addr(&mut self, st: &mut State, t: T, n: u64, write: bool) -> Res<Result<(Loc, Vec<u64>), u64>> {
        // the constant part of the address names the intended object
        let mut base = None;
        let mut x = t;
        loop {
            let nd = self.ar.n(x);
            if nd.op == Op::Add {
                if let Some(k) = self.ar.cv(nd.b) { if let Some((l, _)) = self.locate(st, k as u64) { base = Some(l); break; } x = nd.a; continue; }
            }
            break;
        }
        let l = match base {
            Some(l) => l,
            None => { let a = self.concretize(st, t)? as u64; return Ok(Err(a)); }
        };
        let o = self.obj(st, l);
        if !o.alive { return Err(Stop::Mem("access to freed memory".into())); }
        if n > o.size { return Err(Stop::Mem("access larger than object".into())); }
        let b = self.ar.konst(self.base_of(l) as u128, 64);
        let off = self.ar.bin(Op::Sub, t, b);
        let lim = self.ar.konst((o.size - n) as u128, 64);
        let inb = self.ar.bin(Op::Ule, off, lim);
        if !self.branch(st, inb)? { return Err(Stop::Mem(format!("out-of-bounds {} of {n} bytes through a computed index ({}-byte object)", if write { "write" } else { "read" }, o.size))); }
        let stride = 1u64 << self.ar.tz(off).min(12);
        let lo = (self.ar.umin[off as usize].min((o.size - n) as u128) as u64 + stride - 1) / stride * stride;
        let hi = self.ar.umax[off as usize].min((o.size - n) as u128) as u64;
        let cnt = if hi >= lo { (hi - lo) / stride + 1 } else { 0 };
        let cap = if write { 64 } else { 600 };
        if cnt > cap || cnt == 0 { let a = self.concretize(st, t)? as u64; return Ok(Err(a)); }
        Ok(Ok((l, (0..cnt).map(|i| lo + i * stride).collect())))
    }
    fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> Res<Val> {
        match p {
            Val::I(a, _) => self.load_at(st, *a as u64, ty),
            Val::S(t) => {
                let t = *t;
                match self.sym_addr(st, t, ty.size().max(1), false)? {
                    Err(a) => self.load_at(st, a, ty),
                    Ok((l, offs)) => {
                        let base = self.base_of(l);
                        let mut r: Option<Val> = None;
                        for o in offs.iter().rev() {
                            let x = self.load_at(st, base + o, ty)?;
                            r = Some(match r { None => x, Some(p) => { let k = self.ar.konst((base + o) as u128, 64); let c = self.ar.bin(Op::Eq, t, k); let c = self.v(c); self.ite(&c, &x, &p) } });
                        }
                        Ok(r.unwrap())
                    }
                }
            }
            _ => Err(Stop::Unsup("aggregate address".into())),
        }
    }
    fn store(&mut self, st: &mut State, p: &Val, ty: &Ty, v: &Val) -> Res<()> {
        match p {
            Val::I(a, _) => self.store_at(st, *a as u64, ty, v),
            Val::S(t) => {
                let t = *t;
                match self.sym_addr(st, t, ty.size().max(1), true)? {
                    Err(a) => self.store_at(st, a, ty, v),
                    Ok((l, offs)) => {
                        let base = self.base_of(l);
                        for o in offs {
                            let old = self.load_at(st, base + o, ty)?;
                            let k = self.ar.konst((base + o) as u128, 64);
                            let c = self.ar.bin(Op::Eq, t, k);
                            let c = self.v(c);
                            let nv = self.ite(&c, v, &old);
                            self.store_at(st, base + o, ty, &nv)?;
                        }
                        Ok(())
                    }
                }
            }
            _ => Err(Stop::Unsup("aggregate address".into())),
        }
    }
    fn halloc(&mut self, st: &mut State, size: u64, zero: bool) -> u64 {
        let _ = zero;
        let s = st.heap.len() as u64;
        if size > 1 << 28 { return 0; }
        st.heap.push(Slot::O(Rc::new(Obj { size, data: Rc::new(vec![0; size as usize]), sym: None, alive: true, ro: false, ext: false })));
        let n = (SLOT_OFF + size) / SLOT;
        for k in 0..n { st.heap.push(Slot::Cont(k as u32 + 1)); }
        H_BASE + s * SLOT + SLOT_OFF
    }
    fn hfree(&mut self, st: &mut State, a: u64) -> Res<()> {
        if a == 0 { return Ok(()); }
        match self.locate(st, a) {
            Some((l @ Loc::H(_), 0)) => { let o = self.obj(st, l); if !o.alive { return Err(Stop::Mem("double free".into())); } let o = self.obj_mut(st, l); o.alive = false; o.data = Rc::new(vec![]); o.sym = None; o.size = 0; Ok(()) }
            _ => Err(Stop::Mem(format!("free of non-heap pointer {a:#x}"))),
        }
    }
    fn salloc(&mut self, st: &mut State, size: u64) -> Res<u64> {
        let i = st.th.stack.len() as u64;
        if i > 60000 { return Err(Stop::Unsup("stack depth".into())); }
        if size + SLOT_OFF > SLOT { return Err(Stop::Unsup(format!("stack object of {size} bytes"))); }
        st.th.stack.push(Rc::new(Obj { size, data: Rc::new(vec![0; size as usize]), sym: None, alive: true, ro: false, ext: false }));
        Ok(S_BASE + (((st.th.id as u64) << 16) | i) * SLOT + SLOT_OFF)
    }
    // ---- path constraints ----------------------------------------------
    fn fork(&mut self, st: &State, c: T, m: HashMap<u32, u128>) {
        let mut s = st.clone();
        s.pc.push(c);
        s.model = Rc::new(self.merge(&st.model, m));
        s.depth += 1;
        self.forks += 1;
        self.work.push(s);
    }
    fn merge(&self, old: &Model, m: HashMap<u32, u128>) -> Model { let mut v = old.vals.clone(); for (k, x) in m { v.insert(k, x); } Model::new(v) }
    /// Decide a condition on this path, forking the other side when it is feasible too.
    fn branch(&mut self, st: &mut State, c: T) -> Res<bool> {
        if let Some(k) = self.ar.cv(c) { return Ok(k != 0); }
        let nc = self.ar.not(c);
        if st.known.contains(&c) || st.pc.contains(&c) { return Ok(true); }
        if st.known.contains(&nc) || st.pc.contains(&nc) { return Ok(false); }
        let v = st.model.eval(&self.ar, c) != 0;
        let (me, other) = if v { (c, nc) } else { (nc, c) };
        match self.z.check(&self.ar, &st.pc, other, &st.model) {
            R::Sat(m) => { self.fork(st, other, m); st.pc.push(me); }
            R::Unsat => { Rc::make_mut(&mut st.known).insert(me); }
            R::Unknown => { *self.truncated.entry("solver-unknown(branch)".into()).or_insert(0) += 1; st.pc.push(me); }
        }
        Ok(v)
    }
    fn concretize(&mut self, st: &mut State, t: T) -> Res<u128> {
        if let Some(k) = self.ar.cv(t) { return Ok(k); }
        let v = st.model.eval(&self.ar, t);
        let k = self.ar.konst(v, self.ar.w(t));
        let eq = self.ar.bin(Op::Eq, t, k);
        if self.branch(st, eq)? { Ok(v) } else { panic!("concretize: model mismatch") }
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> Res<u128> { match v { Val::I(x, _) => Ok(*x), Val::S(t) => self.concretize(st, *t), _ => Err(Stop::Unsup("aggregate".into())) } }
    fn assume(&mut self, st: &mut State, c: T) -> Res<()> {
        if let Some(k) = self.ar.cv(c) { return if k != 0 { Ok(()) } else { Err(Stop::Kill) }; }
        if st.model.eval(&self.ar, c) != 0 { if !st.pc.contains(&c) { st.pc.push(c); } return Ok(()); }
        match self.z.check(&self.ar, &st.pc, c, &st.model) {
            R::Sat(m) => { st.model = Rc::new(self.merge(&st.model, m)); st.pc.push(c); Ok(()) }
            R::Unsat => Err(Stop::Kill),
            R::Unknown => { *self.truncated.entry("solver-unknown(assume)".into()).or_insert(0) += 1; Err(Stop::Kill) }
        }
    }
    fn inputs_of(&self, st: &State, m: &Model) -> Vec<(u16, u128)> { st.inputs.iter().map(|i| match i { Inp::Var(t, w) => (*w, m.eval(&self.ar, *t)), Inp::Choice(v) => (0, *v as u128) }).collect() }
    fn obs_of(&self, st: &State, m: &Model) -> Vec<u128> { st.obs.iter().map(|o| match o { Val::I(x, _) => *x, Val::S(t) => m.eval(&self.ar, *t), _ => 0 }).collect() }
    fn stack_of(&self, st: &State) -> Vec<String> { st.th.frames.iter().rev().take(12).map(|f| f.f.name.clone()).collect() }
    fn violate(&mut self, st: &State, m: &Model, kind: &str, label: &str, loc: &str) {
        let key = format!("{kind}|{label}|{}", st.region);
        let n = self.viol_count.entry(key).or_insert(0);
        *n += 1;
        if *n > 3 { return; }
        let v = Violation { kind: kind.into(), label: label.into(), region: (*st.region).clone(), loc: loc.into(), stack: self.stack_of(st), inputs: self.inputs_of(st, m), obs: self.obs_of(st, m), sched: st.sched.clone() };
        if self.cfg.verbose { eprintln!("VIOLATION {} {} [{}] {} inputs {:?}\n   {}", kind, label, v.region, loc, v.inputs, v.stack.join("\n   ")); }
        self.viol.push(v);
    }
    fn check(&mut self, st: &mut State, c: T, label: &str) -> Res<()> {
        self.asserts += 1;
        *self.asserts_by.entry(label.to_string()).or_insert(0) += 1;
        if let Some(k) = self.ar.cv(c) { if k == 0 { let m = st.model.clone(); self.violate(st, &m, "assert", label, ""); return Err(Stop::Kill); } return Ok(()); }
        let nc = self.ar.not(c);
        if st.known.contains(&c) || st.pc.contains(&c) { return Ok(()); }
        if st.model.eval(&self.ar, c) == 0 {
            let m = st.model.clone();
            self.violate(st, &m, "assert", label, "");
            return self.assume(st, c);
        }
        match self.z.check(&self.ar, &st.pc, nc, &st.model) {
            R::Sat(m) => { let m = self.merge(&st.model, m); self.violate(st, &m, "assert", label, ""); st.pc.push(c); Ok(()) }
            R::Unsat => { self.assert_unsat += 1; Rc::make_mut(&mut st.known).insert(c); Ok(()) }
            R::Unknown => { *self.truncated.entry(format!("solver-unknown(assert {label})")).or_insert(0) += 1; st.pc.push(c); Ok(()) }
        }
    }
    // ---- running -------------------------------------------------------
    pub fn start(&mut self, entry: &str) {
        let fi = self.m.resolve_fn(entry).unwrap_or_else(|| panic!("no function {entry}"));
        let f = self.func(fi);
        let regs = vec![Val::I(0, 1); f.nregs];
        let st = State { th: Thread { frames: vec![Frame { f, blk: 0, ip: 0, regs, smark: 0, ret_to: None, cont: None }], stack: vec![], id: 0, done: false, blocked_on: None }, others: vec![], nthreads: 1, heap: vec![], gov: HashMap::new(), pc: vec![], known: Rc::new(HashSet::new()), model: Rc::new(Model::new(HashMap::new())), inputs: vec![], obs: vec![], region: Rc::new(String::new()), steps: 0, depth: 0, switches: 0, no_switch: true, sched: vec![], points: 0 };
        self.work.push(st);
    }
    pub fn run(&mut self) {
        while let Some(mut st) = self.work.pop() {
            if Instant::now() > self.cfg.deadline { *self.truncated.entry("time".into()).or_insert(0) += 1 + self.work.len() as u64; self.work.clear(); return; }
            if self.paths >= self.cfg.max_paths { *self.truncated.entry("paths".into()).or_insert(0) += 1 + self.work.len() as u64; self.work.clear(); return; }
            if self.viol_count.len() >= self.cfg.max_viol { *self.truncated.entry("violations".into()).or_insert(0) += 1 + self.work.len() as u64; self.work.clear(); return; }
            let mut tick = 0u32;
            let stop = loop {
                tick += 1;
                if tick & 0xfff == 0 && Instant::now() > self.cfg.deadline { break Stop::Unsup("time".into()); }
                if let Err(s) = self.step(&mut st) { break s; }
            };
            match stop {
                Stop::End => {
                    self.paths += 1;
                    let take = if self.samples.len() < self.cfg.samples { Some(self.samples.len()) } else { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; let k = (self.rng % self.paths) as usize; if k < self.cfg.samples { Some(k) } else { None } };
                    if let Some(k) = take { if st.others.is_empty() && st.nthreads == 1 { let m = st.model.clone(); let s = (self.inputs_of(&st, &m), self.obs_of(&st, &m)); if k < self.samples.len() { self.samples[k] = s } else { self.samples.push(s) } } }
                }
                Stop::Kill => self.killed += 1,
                Stop::Panic(msg, loc) => { self.paths += 1; self.panics += 1; let m = st.model.clone(); self.violate(&st, &m, "panic", &msg, &loc); }
                Stop::Mem(msg) => { self.paths += 1; let m = st.model.clone(); let f = st.th.frames.last().map(|f| f.f.name.clone()).unwrap_or_default(); self.violate(&st, &m, "memory", &msg, &f); }
                Stop::Unsup(msg) => { *self.truncated.entry(msg.clone()).or_insert(0) += 1; if self.cfg.verbose { eprintln!("UNSUPPORTED {msg} at\n  {}", self.stack_of(&st).join("\n  ")); } }
                Stop::Steps => { *self.truncated.entry("steps".into()).or_insert(0) += 1; if self.suspects.len() < 3 { let m = st.model.clone(); let v = Violation { kind: "steps".into(), label: "path exceeded the instruction budget".into(), region: (*st.region).clone(), loc: String::new(), stack: self.stack_of(&st), inputs: self.inputs_of(&st, &m), obs: vec![], sched: st.sched.clone() }; self.suspects.push(v); } }
            }
        }
    }
    fn get(&self, fr: &Frame, o: &Opd) -> Val { match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::V(v) => v.clone() } }
    fn op(&self, st: &State, o: &Opd) -> Val { self.get(st.th.frames.last().unwrap(), o) }
    fn set(&self, st: &mut State, d: u32, v: Val) { let f = st.th.frames.last_mut().unwrap(); f.regs[d as usize] = v; f.ip += 1; }
    fn jump(&self, st: &mut State, to: u32) {
        let fr = st.th.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let vals: Vec<(u32, Val)> = b.phis.iter().map(|p| { let o = &p.inc.iter().find(|x| x.0 == from).unwrap_or_else(|| panic!("phi in {} {} from {}", f.name, b.name, f.blocks[from as usize].name)).1; (p.dst, match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::V(v) => v.clone() }) }).collect();
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.blk = to;
        fr.ip = 0;
    }
    fn lanes<F: FnMut(&mut Self, &Val, &Val) -> Val>(&mut self, a: &Val, b: &Val, mut f: F) -> Val {
        if let (Val::A(x), Val::A(y)) = (a, b) { let (x, y) = (x.clone(), y.clone()); Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(self, p, q)).collect())) } else { f(self, a, b) }
    }
    fn map<F: FnMut(&mut Self, &Val) -> Val>(&mut self, a: &Val, mut f: F) -> Val { if let Val::A(x) = a { let x = x.clone(); Val::A(Rc::new(x.iter().map(|p| f(self, p)).collect())) } else { f(self, a) } }
    fn step(&mut self, st: &mut State) -> Res<()> {
        self.instrs += 1;
        st.steps += 1;
        if st.steps > self.cfg.max_steps { return Err(Stop::Steps); }
        let (f, blk, ip) = { let fr = st.th.frames.last().unwrap(); (fr.f.clone(), fr.blk, fr.ip) };
        let inst = &f.blocks[blk as usize].insts[ip as usize];
        match inst {
            Inst::Bin(b, d, _t, x, y) => {
                let (x, y) = (self.op(st, x), self.op(st, y));
                let o = match b { Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv, Bin::URem => Op::URem, Bin::SRem => Op::SRem, Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor, Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr, Bin::FAdd => Op::FAdd, Bin::FSub => Op::FSub, Bin::FMul => Op::FMul, Bin::FDiv => Op::FDiv, Bin::FRem => { let r = self.lanes(&x, &y, |s, a, b| s.libm2("fmod", a, b)); self.set(st, *d, r); return Ok(()); } };
                let r = if let (Val::A(_), _) = (&x, &y) { self.lanes(&x, &y, |s, a, b| s.bin(o, a, b)) } else { self.bin(o, &x, &y) };
                self.set(st, *d, r);
            }
            Inst::FNeg(d, t, x) => { let x = self.op(st, x); let _ = t; let r = self.map(&x, |s, a| { let w = s.width(a); s.bin(Op::Xor, a, &Val::I(1u128 << (w - 1), w)) }); self.set(st, *d, r); }
            Inst::ICmp(p, d, _, x, y) => { let (x, y) = (self.op(st, x), self.op(st, y)); let p = *p; let r = self.lanes(&x, &y, |s, a, b| s.icmp(p, a, b)); self.set(st, *d, r); }
            Inst::FCmp(p, d, _, x, y) => { let (x, y) = (self.op(st, x), self.op(st, y)); let r = self.lanes(&x, &y, |s, a, b| s.fcmp(p, a, b)); self.set(st, *d, r); }
            Inst::Cast(k, d, t, x, t2) => { let x = self.op(st, x); let r = self.cast(*k, &x, t, t2)?; self.set(st, *d, r); }
            Inst::Load(d, t, p, at) => { if *at && self.maybe_switch(st)? { return Ok(()); } let p = self.op(st, p); let v = self.load(st, &p, t)?; self.set(st, *d, v); st.no_switch = false; if *at { Self::point(st); } }
            Inst::Store(t, v, p, at) => { if *at && self.maybe_switch(st)? { return Ok(()); } let (v, p) = (self.op(st, v), self.op(st, p)); self.store(st, &p, t, &v)?; st.th.frames.last_mut().unwrap().ip += 1; st.no_switch = false; if *at { Self::point(st); } }
            Inst::Alloca(d, sz, _al, n) => { let n = self.op(st, n); let n = self.conc(st, &n)? as u64; let a = self.salloc(st, sz * n)?; self.set(st, *d, Val::I(a as u128, 64)); }
            Inst::Gep(d, b, off, idx) => {
                let mut a = self.op(st, b);
                for (o, w, stride) in idx {
                    let i = self.op(st, o);
                    let i = if *w < 64 { self.sextv(&i, 64) } else if *w > 64 { self.extract(&i, 0, 64) } else { i };
                    let m = if *stride == 1 { i } else { self.bin(Op::Mul, &i, &Self::kv(*stride as u128, 64)) };
                    a = self.bin(Op::Add, &a, &m);
                }
                if *off != 0 { a = self.bin(Op::Add, &a, &Self::kv(*off as u128, 64)); }
                self.set(st, *d, a);
            }
            Inst::Select(d, ct, t, c, x, y) => {
                let (c, x, y) = (self.op(st, c), self.op(st, x), self.op(st, y));
                let r = if let Ty::Vec(..) = &**ct {
                    if let (Val::A(c), Val::A(x), Val::A(y)) = (&c, &x, &y) { let v = (0..c.len()).map(|i| self.ite(&c[i], &x[i], &y[i])).collect(); Val::A(Rc::new(v)) } else { panic!("vector select") }
                } else {
                    match &c {
                        Val::I(k, _) => if *k != 0 { x } else { y },
                        Val::S(ct) => if **t == Ty::Ptr { let ct = *ct; if self.branch(st, ct)? { x } else { y } } else { self.ite(&c, &x, &y) },
                        _ => panic!(),
                    }
                };
                self.set(st, *d, r);
            }
            Inst::Extract(d, _, x, idx) => { let mut v = self.op(st, x); for i in idx { v = if let Val::A(a) = &v { a[*i as usize].clone() } else { panic!("extractvalue") }; } self.set(st, *d, v); }
            Inst::Insert(d, _, x, e, idx) => { let v = self.op(st, x); let e = self.op(st, e); let r = insert(&v, &e, idx); self.set(st, *d, r); }
            Inst::ExtElem(d, _, x, i) => { let v = self.op(st, x); let i = self.op(st, i); let i = self.conc(st, &i)?; let r = if let Val::A(a) = &v { a[i as usize].clone() } else { panic!() }; self.set(st, *d, r); }
            Inst::InsElem(d, _, x, e, i) => { let v = self.op(st, x); let e = self.op(st, e); let i = self.op(st, i); let i = self.conc(st, &i)?; let r = insert(&v, &e, &[i as u64]); self.set(st, *d, r); }
            Inst::Shuffle(d, _, x, y, m) => { let (x, y) = (self.op(st, x), self.op(st, y)); let r = if let (Val::A(x), Val::A(y)) = (&x, &y) { let n = x.len() as i64; m.iter().map(|k| if *k < 0 { x[0].clone() } else if *k < n { x[*k as usize].clone() } else { y[(*k - n) as usize].clone() }).collect() } else { panic!() }; self.set(st, *d, Val::A(Rc::new(r))); }
            Inst::Rmw(op, d, t, p, v) => {
                if self.maybe_switch(st)? { return Ok(()); }
                let (p, v) = (self.op(st, p), self.op(st, v));
                let old = self.load(st, &p, t)?;
                let nv = match op.as_str() {
                    "xchg" => v, "add" => self.bin(Op::Add, &old, &v), "sub" => self.bin(Op::Sub, &old, &v), "and" => self.bin(Op::And, &old, &v), "or" => self.bin(Op::Or, &old, &v), "xor" => self.bin(Op::Xor, &old, &v),
                    "nand" => { let x = self.bin(Op::And, &old, &v); self.notv(&x) }
                    "max" => { let c = self.bin(Op::Slt, &old, &v); self.ite(&c, &v, &old) } "min" => { let c = self.bin(Op::Slt, &old, &v); self.ite(&c, &old, &v) }
                    "umax" => { let c = self.bin(Op::Ult, &old, &v); self.ite(&c, &v, &old) } "umin" => { let c = self.bin(Op::Ult, &old, &v); self.ite(&c, &old, &v) }
                    _ => return Err(Stop::Unsup(format!("atomicrmw {op}"))),
                };
                self.store(st, &p, t, &nv)?;
                self.set(st, *d, old);
                st.no_switch = false;
                Self::point(st);
            }
            Inst::CmpXchg(d, t, p, a, b) => {
                if self.maybe_switch(st)? { return Ok(()); }
                let (p, a, b) = (self.op(st, p), self.op(st, a), self.op(st, b));
                let old = self.load(st, &p, t)?;
                let c = self.bin(Op::Eq, &old, &a);
                let ok = self.conc(st, &c)?;
                if ok != 0 { self.store(st, &p, t, &b)?; }
                self.set(st, *d, Val::A(Rc::new(vec![old, Val::I(ok, 1)])));
                st.no_switch = false;
                Self::point(st);
            }
            Inst::Freeze(d, _, x) => { let v = self.op(st, x); self.set(st, *d, v); }
            Inst::Fence => st.th.frames.last_mut().unwrap().ip += 1,
            Inst::Br(t) => self.jump(st, *t),
            Inst::CondBr(c, a, b) => { let c = self.op(st, c); let k = match &c { Val::I(k, _) => *k != 0, Val::S(t) => { let t = *t; self.branch(st, t)? } _ => panic!() }; self.jump(st, if k { *a } else { *b }); }
            Inst::Switch(ty, x, df, cs) => {
                let v = self.op(st, x);
                let k = match &v {
                    Val::I(k, _) => cs.iter().find(|c| c.0 == *k).map_or(*df, |c| c.1),
                    Val::S(t) => {
                        // decide one case at a time (cases with the same target together)
                        let t = *t;
                        let mut target = *df;
                        let mut seen = vec![];
                        let cur = st.model.eval(&self.ar, t);
                        // order: the model's own case first
                        let mut order: Vec<u32> = cs.iter().filter(|c| c.0 == cur).map(|c| c.1).collect();
                        for c in cs { if !order.contains(&c.1) { order.push(c.1); } }
                        for l in order {
                            if seen.contains(&l) || l == *df { continue; }
                            seen.push(l);
                            let mut cond = self.ar.konst(0, 1);
                            for c in cs.iter().filter(|c| c.1 == l) { let k = self.ar.konst(c.0, ty.bits()); let e = self.ar.bin(Op::Eq, t, k); cond = self.ar.or1(cond, e); }
                            if self.branch(st, cond)? { target = l; break; }
                        }
                        target
                    }
                    _ => panic!(),
                };
                self.jump(st, k);
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| self.op(st, o));
                let fr = st.th.frames.pop().unwrap();
                st.th.stack.truncate(fr.smark as usize);
                if st.th.frames.is_empty() { return self.thread_end(st); }
                self.ret(st, fr.ret_to, v, fr.cont);
            }
            Inst::Unreachable => return Err(Stop::Mem(format!("reached unreachable code in {}", f.name))),
            Inst::Unsupported(s) => return Err(Stop::Unsup(format!("instruction {s}"))),
            Inst::Call { dst, ret, callee, args, noreturn, to } => {
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args { av.push(self.op(st, o)); }
                let fi = match callee {
                    Callee::Direct(n) => match self.m.resolve_fn(n) { Some(i) => i, None => return Err(Stop::Unsup(format!("symbol {n}"))) },
                    Callee::Indirect(o) => { let p = self.op(st, o); let a = self.conc(st, &p)? as u64; if a < F_BASE || (a - F_BASE) / 16 >= self.m.fns.len() as u64 || a % 16 != 0 { return Err(Stop::Mem(format!("call of invalid pointer {a:#x}"))); } ((a - F_BASE) / 16) as usize }
                    Callee::Asm(s) => { let r = match &**ret { Ty::Void => None, t => Some(Cur::zero(t)) }; self.stubs.insert(format!("asm {s}")); self.fin(st, *dst, r, *to); return Ok(()); }
                };
                if *noreturn || self.m.fns[fi].noreturn {
                    let (msg, loc) = self.panic_info(st, fi, &av);
                    return Err(Stop::Panic(msg, loc));
                }
                if self.m.fns[fi].def.is_none() || self.override_fn(&self.m.fns[fi].name) {
                    let name = &self.m.fns[fi].name;
                    let r = self.builtin(st, name, &av, ret, args)?;
                    if !self.uf_new.is_empty() { self.settle_ufs(st)?; }
                    match r { Bi::Val(v) => self.fin(st, *dst, v, *to), Bi::Done => {} Bi::Yield(v) => { self.fin(st, *dst, v, *to); self.pick(st, false)?; } }
                    return Ok(());
                }
                if self.cfg.quiet_fmt {
                    let w = self.number_fmt(fi);
                    if w > 0 && !av.is_empty() {
                        let v = if w == 1 { (0..av.len()).find(|i| matches!(&*args[*i].0, Ty::F32 | Ty::F64)).map_or(Val::I(0, 1), |i| av[i].clone()) } else if matches!(&*args[0].0, Ty::Ptr) { let p = self.conc(st, &av[0])? as u64; self.load_at(st, p, &Ty::Int(w))? } else { av[0].clone() };
                        if let Val::S(_) = v {
                            self.stubs.insert("text of symbolic numbers left out of messages".into());
                            self.fin(st, *dst, Some(Val::I(0, 1)), *to);
                            return Ok(());
                        }
                    }
                }
                if st.th.frames.len() > 400 { return Err(Stop::Unsup("call depth".into())); }
                let callee = self.func(fi);
                let mut regs = vec![Val::I(0, 1); callee.nregs];
                for (p, v) in callee.params.iter().zip(av) { regs[*p as usize] = v; }
                let smark = st.th.stack.len() as u32;
                st.th.frames.push(Frame { f: callee, blk: 0, ip: 0, regs, smark, ret_to: *dst, cont: *to });
            }
        }
        Ok(())
    }
    fn ret(&mut self, st: &mut State, dst: Option<u32>, v: Option<Val>, to: Option<u32>) { self.fin(st, dst, v, to) }
    fn fin(&mut self, st: &mut State, dst: Option<u32>, v: Option<Val>, to: Option<u32>) {
        let fr = st.th.frames.last_mut().unwrap();
        if let (Some(d), Some(v)) = (dst, v) { fr.regs[d as usize] = v; }
        match to { Some(b) => self.jump(st, b), None => fr.ip += 1 }
    }
    fn override_fn(&self, _n: &str) -> bool { false }
    /// Width of the number that `fi` formats, if it is core's Display or Debug of a number.
    fn number_fmt(&mut self, fi: usize) -> u16 {
        if let Some(w) = self.fmt_w.get(&fi) { return *w; }
        let n = &self.m.fns[fi].name;
        let base = n.find("4core3fmt").and_then(|i| { let r = &n[i + 9..]; ["3num3imp", "5float", "3num"].iter().find_map(|p| r.strip_prefix(p)) });
        let w = match base {
            Some(r) if r[1..].starts_with("Nt") && (r.contains("7Display3fmt") || r.contains("5Debug3fmt")) => match r.as_bytes()[0] { b'a' | b'h' => 8, b's' | b't' => 16, b'l' | b'm' | b'f' => 32, b'x' | b'y' | b'i' | b'j' | b'd' => 64, b'n' | b'o' => 128, _ => 0 },
            _ if n.contains("4core3fmt5float") => 1,
            _ => 0,
        };
        self.fmt_w.insert(fi, w);
        w
    }
    // ---- threads (bounded interleavings at atomic operations) ------------
    fn thread_end(&mut self, st: &mut State) -> Res<()> {
        st.th.done = true;
        if st.th.id == 0 { return Err(Stop::End); }
        // switch to some other runnable thread: fork over the choice
        self.pick(st, false)?;
        Ok(())
    }
    fn runnable(&self, st: &State) -> Vec<usize> { (0..st.others.len()).filter(|i| { let t = &st.others[*i]; !t.done && match t.blocked_on { None => true, Some(j) => st.th.id == j && st.th.done || st.others.iter().any(|o| o.id == j && o.done) } }).collect() }
    fn pick(&mut self, st: &mut State, include_self: bool) -> Res<()> {
        let r = self.runnable(st);
        if r.is_empty() { if include_self { return Ok(()); } return Err(Stop::Unsup("deadlock".into())); }
        let first = if include_self { None } else { Some(r[0]) };
        let rest: Vec<usize> = if include_self { r } else { r[1..].to_vec() };
        for i in rest { let mut s = st.clone(); self.switch_to(&mut s, i); if include_self { s.switches += 1; } self.forks += 1; self.work.push(s); }
        if let Some(i) = first { self.switch_to(st, i); }
        Ok(())
    }
    fn switch_to(&self, st: &mut State, i: usize) { let t = st.others.remove(i); let old = std::mem::replace(&mut st.th, t); st.others.push(old); st.th.blocked_on = None; st.no_switch = true; st.sched.push((st.points, st.th.id)); }
    /// Counts atomic operations since the first spawn: the positions a recorded schedule refers to.
    fn point(st: &mut State) { if !st.others.is_empty() { st.points += 1; } }
    /// At an atomic operation: also explore running another thread first.
    fn maybe_switch(&mut self, st: &mut State) -> Res<bool> {
        if st.others.is_empty() || st.no_switch || st.switches >= self.cfg.switch_bound { return Ok(false); }
        st.no_switch = true;
        self.pick(st, true)?;
        Ok(false)
    }
    // ---- scalar helpers --------------------------------------------------
    fn icmp(&mut self, p: Pred, a: &Val, b: &Val) -> Val {
        match p {
            Pred::Eq => self.bin(Op::Eq, a, b), Pred::Ne => { let e = self.bin(Op::Eq, a, b); self.notv(&e) }
            Pred::Ult => self.bin(Op::Ult, a, b), Pred::Ule => self.bin(Op::Ule, a, b), Pred::Ugt => self.bin(Op::Ult, b, a), Pred::Uge => self.bin(Op::Ule, b, a),
            Pred::Slt => self.bin(Op::Slt, a, b), Pred::Sle => self.bin(Op::Sle, a, b), Pred::Sgt => self.bin(Op::Slt, b, a), Pred::Sge => self.bin(Op::Sle, b, a),
        }
    }
    fn isnan(&mut self, a: &Val) -> Val { let w = self.width(a); let _ = w; match a { Val::I(x, w) => { let n = Node { op: Op::FNan, w: 1, a: 0, b: 0, c: 0, k: 0 }; Val::I(apply(&n, *w, *x, 0, 0, 0), 1) } _ => { let t = self.t(a); let r = self.ar.un(Op::FNan, t, 1, 0); self.v(r) } } }
    fn fcmp(&mut self, p: &str, a: &Val, b: &Val) -> Val {
        let uno = |s: &mut Self| { let x = s.isnan(a); let y = s.isnan(b); s.bin(Op::Or, &x, &y) };
        match p {
            "false" => Val::I(0, 1), "true" => Val::I(1, 1),
            "oeq" => self.bin(Op::FEq, a, b), "une" => { let e = self.bin(Op::FEq, a, b); self.notv(&e) }
            "olt" => self.bin(Op::FLt, a, b), "ole" => self.bin(Op::FLe, a, b), "ogt" => self.bin(Op::FLt, b, a), "oge" => self.bin(Op::FLe, b, a),
            "uno" => uno(self), "ord" => { let u = uno(self); self.notv(&u) }
            "ult" => { let e = self.bin(Op::FLe, b, a); self.notv(&e) } "ule" => { let e = self.bin(Op::FLt, b, a); self.notv(&e) }
            "ugt" => { let e = self.bin(Op::FLe, a, b); self.notv(&e) } "uge" => { let e = self.bin(Op::FLt, a, b); self.notv(&e) }
            "ueq" => { let x = self.bin(Op::FEq, a, b); let u = uno(self); self.bin(Op::Or, &x, &u) }
            "one" => { let x = self.bin(Op::FEq, a, b); let u = uno(self); let o = self.bin(Op::Or, &x, &u); self.notv(&o) }
            _ => panic!("fcmp {p}"),
        }
    }
    fn unf(&mut self, op: Op, a: &Val, w: u16, k: u128) -> Val { match a { Val::I(x, aw) => { let n = Node { op, w, a: 0, b: 0, c: 0, k }; Val::I(apply(&n, *aw, *x, 0, 0, 0), w) } _ => { let t = self.t(a); let r = self.ar.un(op, t, w, k); self.v(r) } } }
    fn cast(&mut self, k: Cast, x: &Val, t: &Ty, t2: &Ty) -> Res<Val> {
        if k == Cast::Bitcast { let b = self.to_bits(x); return Ok(self.from_bits(&b, t2)); }
        if let Val::A(v) = x { let (e1, e2) = (t.elem(0), t2.elem(0)); let v = v.clone(); let mut r = vec![]; for l in v.iter() { r.push(self.cast(k, l, &e1, &e2)?); } return Ok(Val::A(Rc::new(r))); }
        let w = t2.bits();
        let aw = self.width(x);
        Ok(match k {
            Cast::Trunc => self.extract(x, 0, w),
            Cast::ZExt => self.zext(x, w),
            Cast::SExt => self.sextv(x, w),
            Cast::PtrToInt | Cast::IntToPtr => if w < aw { self.extract(x, 0, w) } else { self.zext(x, w) },
            Cast::FpTrunc | Cast::FpExt => self.unf(Op::FCvt, x, w, 0),
            Cast::FpToSi => self.unf(Op::FToS, x, w, 0),
            Cast::FpToUi => self.unf(Op::FToU, x, w, 0),
            Cast::SiToFp => self.unf(Op::SToF, x, w, 0),
            Cast::UiToFp => self.unf(Op::UToF, x, w, 0),
            Cast::Bitcast => unreachable!(),
        })
    }
    fn libm2(&mut self, f: &str, a: &Val, b: &Val) -> Val {
        let w = self.width(a);
        if let (Val::I(x, _), Val::I(y, _)) = (a, b) {
            let r = if w == 32 { let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32)); (match f { "pow" => x.powf(y), "fmod" => x % y, "hypot" => x.hypot(y), "atan2" => x.atan2(y), "powi" => x.powi(y.to_bits() as i32), _ => panic!("libm2 {f}") }).to_bits() as u128 }
                else { let (x, y) = (f64::from_bits(*x as u64), f64::from_bits(*y as u64)); (match f { "pow" => x.powf(y), "fmod" => x % y, "hypot" => x.hypot(y), "atan2" => x.atan2(y), _ => panic!("libm2 {f}") }).to_bits() as u128 };
            return Val::I(r, w);
        }
        self.stubs.insert(format!("uninterpreted {f}/{w}"));
        let (x, y) = (self.t(a), self.t(b));
        let id = fid(f, w);
        let r = self.ar.ufapp(id, vec![x, y], w);
        self.v(r)
    }
    fn libm1(&mut self, f: &str, a: &Val) -> Val {
        let w = self.width(a);
        if let Val::I(x, _) = a {
            macro_rules! go { ($x:expr) => { match f { "exp" => $x.exp(), "exp2" => $x.exp2(), "expm1" => $x.exp_m1(), "log" => $x.ln(), "log2" => $x.log2(), "log10" => $x.log10(), "log1p" => $x.ln_1p(), "sin" => $x.sin(), "cos" => $x.cos(), "tan" => $x.tan(), "atan" => $x.atan(), "asin" => $x.asin(), "acos" => $x.acos(), "sinh" => $x.sinh(), "cosh" => $x.cosh(), "tanh" => $x.tanh(), "cbrt" => $x.cbrt(), _ => panic!("libm {f}") } } }
            return if w == 32 { Val::I(go!(f32::from_bits(*x as u32)).to_bits() as u128, 32) } else { Val::I(go!(f64::from_bits(*x as u64)).to_bits() as u128, 64) };
        }
        let mut x = self.t(a);
        // exp does not tell the zeros apart: -(integer) and (-integer) are one argument
        if f == "exp" {
            let n = self.ar.n(x);
            if n.op == Op::Xor && self.ar.cv(n.b) == Some(1u128 << (w - 1)) {
                let y = self.ar.n(n.a);
                if y.op == Op::SToF && self.ar.w(y.a) == 64 && self.ar.smin[y.a as usize] > -(1 << 60) && self.ar.smax[y.a as usize] < 1 << 60 {
                    let z = self.ar.konst(0, 64);
                    let m = self.ar.bin(Op::Sub, z, y.a);
                    x = self.ar.un(Op::SToF, m, w, 0);
                }
            }
        }
        if f == "exp" {
            let n = self.ar.n(x);
            if n.op == Op::SToF && self.ar.w(n.a) == 64 {
                let y = self.ar.n(n.a);
                if let (Op::Mul, Some(k)) = (y.op, self.ar.cv(y.b)) {
                    if k >> 63 == 1 && self.ar.smin[y.a as usize] > -(1 << 30) && self.ar.smax[y.a as usize] < 1 << 30 {
                        let (z, c) = (self.ar.konst(0, 64), self.ar.konst((1u128 << 64) - k, 64));
                        let m = self.ar.bin(Op::Mul, y.a, c);
                        let m = self.ar.bin(Op::Sub, z, m);
                        x = self.ar.un(Op::SToF, m, w, 0);
                    }
                }
            }
        }
        // an argument that can only be zero, of either sign
        if f == "exp" && self.ar.fr(x) == Some((0.0, 0.0)) { return Val::I(if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 }, w); }
        self.stubs.insert(format!("uninterpreted {f}/{w}"));
        let id = fid(f, w);
        let r = self.ar.ufapp(id, vec![x], w);
        let slack = 1e-5;
        let range = match (f, self.ar.fr(x)) {
            ("exp", Some((lo, hi))) if hi < 80.0 => Some((if lo > -80.0 { lo.exp() * (1.0 - slack) } else { 0.0 }, hi.exp() * (1.0 + slack))),
            ("log", Some((lo, hi))) if lo > 0.0 => Some((lo.ln() - slack * (1.0 + lo.ln().abs()), hi.ln() + slack * (1.0 + hi.ln().abs()))),
            _ => None,
        };
        if let Some((lo, hi)) = range { let r32 = |v: f64| if w == 32 { v as f32 as f64 } else { v }; self.ar.bound_uf(r, r32(lo), r32(hi)); }
        self.uf_new.push((f.to_string(), x, r, range.is_some()));
        self.v(r)
    }
    /// The values of uninterpreted functions in the current model are the true ones as far as possible, and within their known ranges.
    fn settle_ufs(&mut self, st: &mut State) -> Res<()> {
        for (f, x, r, bounded) in std::mem::take(&mut self.uf_new) {
            let n = self.ar.n(r);
            let w = n.w;
            if !st.model.vals.contains_key(&(n.k as u32)) {
                let v = st.model.eval(&self.ar, x);
                let c = self.libm1(&f, &Val::I(v, w));
                let mut vals = st.model.vals.clone();
                if let Val::I(c, _) = c { vals.insert(n.k as u32, c); }
                st.model = Rc::new(Model::new(vals));
            }
            if bounded {
                let (lo, hi) = self.ar.fr(r).unwrap();
                let k = |v: f64| if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
                let (a, b) = (self.ar.konst(k(lo), w), self.ar.konst(k(hi), w));
                let (p, q) = (self.ar.raw(Op::FLe, a, r), self.ar.raw(Op::FLe, r, b));
                self.assume(st, p)?;
                self.assume(st, q)?;
            }
        }
        Ok(())
    }
    fn panic_info(&mut self, st: &State, fi: usize, av: &[Val]) -> (String, String) {
        let name = self.m.fns[fi].name.clone();
        let mut loc = String::new();
        for v in av.iter().rev() {
            if let Val::I(a, 64) = v {
                if let Some((l, off)) = self.locate(st, *a as u64) {
                    let o = self.obj(st, l);
                    if o.alive && o.size >= off + 24 {
                        if let (Val::I(p, _), Val::I(n, _), Val::I(ln, _), Val::I(col, _)) = (self.read_obj(&o, off, 8), self.read_obj(&o, off + 8, 8), self.read_obj(&o, off + 16, 4), self.read_obj(&o, off + 20, 4)) {
                            if let Some((l2, o2)) = self.locate(st, p as u64) { let s = self.obj(st, l2); if n > 3 && n < 400 && s.size >= o2 + n as u64 { let bytes = &s.data[o2 as usize..o2 as usize + n as usize]; if bytes.ends_with(b".rs") { loc = format!("{}:{}:{}", String::from_utf8_lossy(bytes), ln, col); break; } } }
                        }
                    }
                }
            }
        }
        (name, loc)
    }
    fn cstr(&mut self, st: &State, p: u64, n: u64) -> String { match self.access(st, p, n, false) { Ok((l, off)) => { let o = self.obj(st, l); String::from_utf8_lossy(&o.data[off as usize..(off + n) as usize]).into_owned() } Err(_) => "?".into() } }
    fn newvar(&mut self, st: &mut State, w: u16) -> T { let t = self.ar.var(st.inputs.len() as u32, w, 0); st.inputs.push(Inp::Var(t, w)); t }

    // ---- builtins ---------------------------------------------------------
    fn builtin(&mut self, st: &mut State, name: &str, a: &[Val], ret: &Ty, args: &[(TyR, Opd)]) -> Res<Bi> {
        if let Some(n) = name.strip_prefix("llvm.") { return self.intrinsic(st, n, a, ret, args); }
        let val = |v: Val| Ok(Bi::Val(Some(v)));
        let int = |x: u64, ret: &Ty| Ok(Bi::Val(match ret { Ty::Void => None, t => Some(Self::kv(x as u128, t.bits())) }));
        match name {
            "__sym_var" => { let w = self.conc(st, &a[0])? as u16; let t = self.newvar(st, w); let v = self.v(t); let r = self.zext(&v, 64); val(r) }
            "__sym_range" => {
                let span = self.conc(st, &a[0])? as u64;
                let w = (64 - span.leading_zeros()).max(1) as u16;
                let t = self.ar.var_bounded(st.inputs.len() as u32, w, 0, span as u128);
                st.inputs.push(Inp::Var(t, w));
                if (span as u128) < crate::term::mask(w) { let c = self.ar.raw_ule(t, span as u128); st.pc.push(c); }
                let v = self.v(t); let r = self.zext(&v, 64); val(r)
            }
            "__sym_bytes" => { let p = self.conc(st, &a[0])? as u64; let n = self.conc(st, &a[1])? as u64; let (l, off) = self.access(st, p, n, true)?; let bytes: Vec<(u8, Sb)> = (0..n).map(|_| (0u8, (self.newvar(st, 8) as Sb) << 8)).collect(); let o = self.obj_mut(st, l); Self::put(o, off, &bytes); Ok(Bi::Val(None)) }
            "__sym_choose" => {
                let n = self.conc(st, &a[0])? as u64;
                // fork every alternative but the first by re-queueing finished copies
                let (dst, to) = { let fr = st.th.frames.last().unwrap(); match &fr.f.blocks[fr.blk as usize].insts[fr.ip as usize] { Inst::Call { dst, to, .. } => (*dst, *to), _ => unreachable!() } };
                for k in (1..n).rev() { let mut s = st.clone(); s.inputs.push(Inp::Choice(k)); self.fin(&mut s, dst, Some(Self::kv(k as u128, ret.bits())), to); self.forks += 1; self.work.push(s); }
                if n == 0 { return Err(Stop::Kill); }
                st.inputs.push(Inp::Choice(0));
                int(0, ret)
            }
            "__sym_concretize" => { let v = self.conc(st, &a[0])?; val(Val::I(v, 64)) }
            "__sym_param" => { let i = self.conc(st, &a[0])? as usize; int(self.cfg.params.get(i).copied().unwrap_or(0), ret) }
            "__sym_assume" => { let t = self.t(&a[0]); self.assume(st, t)?; Ok(Bi::Val(None)) }
            "__sym_check" => { let (p, n) = (self.conc(st, &a[1])? as u64, self.conc(st, &a[2])? as u64); let label = self.cstr(st, p, n); let t = self.t(&a[0]); self.check(st, t, &label)?; Ok(Bi::Val(None)) }
            "__sym_region" => { let (p, n) = (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as u64); st.region = Rc::new(self.cstr(st, p, n)); Ok(Bi::Val(None)) }
            "__sym_cover" => { let (p, n) = (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as u64); let l = self.cstr(st, p, n); *self.covers.entry(l).or_insert(0) += 1; Ok(Bi::Val(None)) }
            "__sym_obs" => { st.obs.push(a[0].clone()); Ok(Bi::Val(None)) }
            "__sym_spawn" => {
                let f = self.conc(st, &a[0])? as u64;
                let fi = ((f - F_BASE) / 16) as usize;
                let fun = self.func(fi);
                let mut regs = vec![Val::I(0, 1); fun.nregs];
                if let Some(p) = fun.params.first() { regs[*p as usize] = a[1].clone(); }
                let id = st.nthreads;
                st.nthreads += 1;
                st.others.push(Thread { frames: vec![Frame { f: fun, blk: 0, ip: 0, regs, smark: 0, ret_to: None, cont: None }], stack: vec![], id, done: false, blocked_on: None });
                int(id as u64, ret)
            }
            "__sym_join" => {
                let id = self.conc(st, &a[0])? as u32;
                if st.others.iter().any(|t| t.id == id && !t.done) { st.th.blocked_on = Some(id); self.pick(st, false)?; return Ok(Bi::Done); }
                Ok(Bi::Val(None))
            }
            "malloc" => { let n = self.conc(st, &a[0])? as u64; let p = self.halloc(st, n, false); int(p, ret) }
            "calloc" => { let n = self.conc(st, &a[0])? as u64 * self.conc(st, &a[1])? as u64; let p = self.halloc(st, n, true); int(p, ret) }
            "posix_memalign" => { let n = self.conc(st, &a[2])? as u64; let p = self.halloc(st, n, false); self.store(st, &a[0], &Ty::Ptr, &Val::I(p as u128, 64))?; int(0, ret) }
            "aligned_alloc" => { let n = self.conc(st, &a[1])? as u64; let p = self.halloc(st, n, false); int(p, ret) }
            "free" => { let p = self.conc(st, &a[0])? as u64; self.hfree(st, p)?; Ok(Bi::Val(None)) }
            "realloc" => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                let q = self.halloc(st, n, false);
                if p != 0 { let (l, off) = self.access(st, p, 0, false)?; let o = self.obj(st, l); if off != 0 { return Err(Stop::Mem("realloc of interior pointer".into())); } let k = o.size.min(n); let b = self.get_bytes(st, l, 0, k); let (l2, _) = self.access(st, q, k, true)?; let o2 = self.obj_mut(st, l2); Self::put(o2, 0, &b); self.hfree(st, p)?; }
                int(q, ret)
            }
            "memcpy" | "memmove" => { self.memmove(st, &a[0], &a[1], &a[2])?; val(a[0].clone()) }
            "memset" => { let b = self.extract(&a[1], 0, 8); self.memset(st, &a[0], &b, &a[2])?; val(a[0].clone()) }
            "memcmp" | "bcmp" => { let r = self.memcmp(st, &a[0], &a[1], &a[2], name == "bcmp")?; val(r) }
            "strlen" => { let p = self.conc(st, &a[0])? as u64; let mut n = 0; loop { let v = self.load_at(st, p + n, &Ty::Int(8))?; let v = self.conc(st, &v)?; if v == 0 { break; } n += 1; } int(n, ret) }
            "getenv" | "secure_getenv" => int(0, ret),
            "write" => { let n = self.conc(st, &a[2])? as u64; int(n, ret) }
            "writev" => { let n = self.conc(st, &a[2])? as u64; let p = self.conc(st, &a[1])? as u64; let mut tot = 0u64; for i in 0..n { let v = self.load_at(st, p + 16 * i + 8, &Ty::Int(64))?; tot += self.conc(st, &v)? as u64; } int(tot, ret) }
            "__errno_location" => { let p = self.halloc(st, 4, true); int(p, ret) }
            "syscall" if a.len() > 2 && matches!((&a[0], &a[2]), (Val::I(202, _), Val::I(op, _)) if matches!(op & 0x7f, 0 | 9)) && !self.runnable(st).is_empty() => {
                // a thread waiting on a futex lets another one run
                self.stubs.insert("syscall 202 (futex wait: another thread runs)".into());
                Ok(Bi::Yield(Some(Val::I(0, 64))))
            }
            "syscall" => { let k = self.conc(st, &a[0])? as u64; self.stubs.insert(format!("syscall {k}")); match k { 318 => { let p = self.conc(st, &a[1])? as u64; let n = self.conc(st, &a[2])? as u64; for i in 0..n { self.store_at(st, p + i, &Ty::Int(8), &Val::I(((i * 37 + 11) & 0xff) as u128, 8))?; } int(n, ret) } _ => int(0, ret) } }
            "getrandom" => { let p = self.conc(st, &a[0])? as u64; let n = self.conc(st, &a[1])? as u64; for i in 0..n { self.store_at(st, p + i, &Ty::Int(8), &Val::I(((i * 37 + 11) & 0xff) as u128, 8))?; } int(n, ret) }
            "clock_gettime" => { let p = self.conc(st, &a[1])? as u64; self.stubs.insert("clock_gettime".into()); self.store_at(st, p, &Ty::Int(64), &Val::I(1_700_000_000, 64))?; self.store_at(st, p + 8, &Ty::Int(64), &Val::I(0, 64))?; int(0, ret) }
            "sysconf" => int(4096, ret),
            "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "pthread_getspecific" | "__cxa_thread_atexit_impl" | "sched_yield" | "_Unwind_Backtrace" | "dl_iterate_phdr" | "close" | "munmap" | "pthread_self" | "gettid" | "nanosleep" | "tzset" | "__cxa_atexit" | "atexit" => { self.stubs.insert(name.into()); int(0, ret) }
            "exp" | "exp2" | "expm1" | "log" | "log2" | "log10" | "log1p" | "sin" | "cos" | "tan" | "atan" | "asin" | "acos" | "sinh" | "cosh" | "tanh" | "cbrt" => { let r = self.libm1(name, &a[0]); val(r) }
            "expf" | "exp2f" | "expm1f" | "logf" | "log2f" | "log10f" | "log1pf" | "sinf" | "cosf" | "tanf" | "atanf" | "asinf" | "acosf" | "sinhf" | "coshf" | "tanhf" | "cbrtf" => { let r = self.libm1(&name[..name.len() - 1], &a[0]); val(r) }
            "pow" | "fmod" | "hypot" | "atan2" => { let r = self.libm2(name, &a[0], &a[1]); val(r) }
            "powf" | "fmodf" | "hypotf" | "atan2f" => { let r = self.libm2(&name[..name.len() - 1], &a[0], &a[1]); val(r) }
            "sqrt" | "sqrtf" => { let w = self.width(&a[0]); let r = self.unf(Op::FSqrt, &a[0], w, 0); val(r) }
            "floor" | "floorf" => { let w = self.width(&a[0]); let r = self.unf(Op::FRnd, &a[0], w, 0); val(r) }
            "ceil" | "ceilf" => { let w = self.width(&a[0]); let r = self.unf(Op::FRnd, &a[0], w, 1); val(r) }
            "trunc" | "truncf" => { let w = self.width(&a[0]); let r = self.unf(Op::FRnd, &a[0], w, 2); val(r) }
            "rint" | "rintf" => { let w = self.width(&a[0]); let r = self.unf(Op::FRnd, &a[0], w, 3); val(r) }
            "round" | "roundf" => { let w = self.width(&a[0]); let r = self.unf(Op::FRnd, &a[0], w, 4); val(r) }
            "fma" | "fmaf" => { let r = self.fmav(&a[0], &a[1], &a[2]); val(r) }
            "fmin" | "fminf" => { let r = self.fminmax(&a[0], &a[1], true); val(r) }
            "fmax" | "fmaxf" => { let r = self.fminmax(&a[0], &a[1], false); val(r) }
            _ => Err(Stop::Unsup(format!("external function {name}"))),
        }
    }
    fn fmav(&mut self, a: &Val, b: &Val, c: &Val) -> Val { let (x, y, z) = (self.t(a), self.t(b), self.t(c)); let r = self.ar.fma(x, y, z); self.v(r) }
    fn fminmax(&mut self, a: &Val, b: &Val, min: bool) -> Val { let na = self.isnan(a); let nb = self.isnan(b); let lt = if min { self.bin(Op::FLt, a, b) } else { self.bin(Op::FLt, b, a) }; let r = self.ite(&lt, a, b); let r = self.ite(&nb, a, &r); self.ite(&na, b, &r) }
    fn memmove(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val) -> Res<()> {
        let n = self.conc(st, n)? as u64;
        if n == 0 { return Ok(()); }
        let d = self.conc(st, d)? as u64;
        let s = self.conc(st, s)? as u64;
        let (ls, os) = self.access(st, s, n, false)?;
        let (ld, od) = self.access(st, d, n, true)?;
        let b = self.get_bytes(st, ls, os, n);
        let o = self.obj_mut(st, ld);
        Self::put(o, od, &b);
        Ok(())
    }
    fn memset(&mut self, st: &mut State, d: &Val, b: &Val, n: &Val) -> Res<()> {
        let n = self.conc(st, n)? as u64;
        if n == 0 { return Ok(()); }
        let d = self.conc(st, d)? as u64;
        let (l, off) = self.access(st, d, n, true)?;
        let e = match b { Val::I(x, _) => (*x as u8, NOTERM), Val::S(t) => (0, (*t as Sb) << 8), _ => panic!() };
        let o = self.obj_mut(st, l);
        Self::put(o, off, &vec![e; n as usize]);
        Ok(())
    }
    fn memcmp(&mut self, st: &mut State, p: &Val, q: &Val, n: &Val, eq_only: bool) -> Res<Val> {
        let n = self.conc(st, n)? as u64;
        if n == 0 { return Ok(Val::I(0, 32)); }
        let p = self.conc(st, p)? as u64;
        let q = self.conc(st, q)? as u64;
        let (lp, op) = self.access(st, p, n, false)?;
        let (lq, oq) = self.access(st, q, n, false)?;
        let x = self.get_bytes(st, lp, op, n);
        let y = self.get_bytes(st, lq, oq, n);
        let mut r = Val::I(0, 32);
        let tv = |s: &mut Self, b: &(u8, Sb)| if b.1 == NOTERM { Val::I(b.0 as u128, 8) } else { let t = s.sb(b.1); s.v(t) };
        if eq_only {
            let mut all = Val::I(1, 1);
            for (a, b) in x.iter().zip(y.iter()) { let (a, b) = (tv(self, a), tv(self, b)); let e = self.bin(Op::Eq, &a, &b); all = self.bin(Op::And, &all, &e); }
            let ne = self.notv(&all);
            return Ok(self.zext(&ne, 32));
        }
        for (a, b) in x.iter().zip(y.iter()).rev() {
            let (a, b) = (tv(self, a), tv(self, b));
            let e = self.bin(Op::Eq, &a, &b);
            let l = self.bin(Op::Ult, &a, &b);
            let d = self.ite(&l, &Val::I(0xffffffff, 32), &Val::I(1, 32));
            r = self.ite(&e, &r, &d);
        }
        Ok(r)
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[Val], ret: &Ty, args: &[(TyR, Opd)]) -> Res<Bi> {
        let val = |v: Val| Ok(Bi::Val(Some(v)));
        let key = n.split('.').next().unwrap();
        match key {
            "lifetime" | "experimental" | "donothing" | "prefetch" | "dbg" | "sideeffect" | "invariant" | "x86" if !n.starts_with("x86.sse2.pause") && key == "x86" => Err(Stop::Unsup(format!("intrinsic {n}"))),
            "lifetime" | "experimental" | "donothing" | "prefetch" | "dbg" | "sideeffect" | "invariant" | "x86" => Ok(Bi::Val(None)),
            "assume" => Ok(Bi::Val(None)),
            "memcpy" | "memmove" => { self.memmove(st, &a[0], &a[1], &a[2])?; Ok(Bi::Val(None)) }
            "memset" => { self.memset(st, &a[0], &a[1], &a[2])?; Ok(Bi::Val(None)) }
            "expect" => val(a[0].clone()),
            "is" if n.starts_with("is.fpclass") => {
                let m = if let Val::I(m, _) = &a[1] { *m } else { return Err(Stop::Unsup(n.to_string())) };
                let r = self.map(&a[0], |s, x| s.fpclass(x, m));
                val(r)
            }
            "is" if n.starts_with("is.constant") => Ok(Bi::Val(Some(Val::I(matches!(a[0], Val::I(..)) as u128, 1)))),
            "threadlocal" | "launder" | "strip" | "ptrmask" if key != "ptrmask" => val(a[0].clone()),
            "ptrmask" => { let r = self.bin(Op::And, &a[0], &a[1]); val(r) }
            "load" if n.starts_with("load.relative") => { let p = self.bin(Op::Add, &a[0], &a[1]); let v = self.load(st, &p, &Ty::Int(32))?; let v = self.sextv(&v, 64); let r = self.bin(Op::Add, &a[0], &v); val(r) }
            "fshl" | "fshr" => { let r = self.tri(a, |s, x, y, z| { let w = s.width(x); let c = s.concat(x, y); let zz = s.zext(z, 2 * w); let m = s.bin(Op::URem, &zz, &Val::I(w as u128, 2 * w)); if key == "fshl" { let sh = s.bin(Op::Shl, &c, &m); s.extract(&sh, w, w) } else { let sh = s.bin(Op::LShr, &c, &m); s.extract(&sh, 0, w) } }); val(r) }
            "umin" | "umax" | "smin" | "smax" => { let o = if key.starts_with('u') { Op::Ult } else { Op::Slt }; let mn = key.ends_with("min"); let r = self.lanes(&a[0], &a[1], |s, x, y| { let c = s.bin(o, x, y); if mn { s.ite(&c, x, y) } else { s.ite(&c, y, x) } }); val(r) }
            "usub" if n.starts_with("usub.sat") => { let r = self.lanes(&a[0], &a[1], |s, x, y| { let c = s.bin(Op::Ult, x, y); let d = s.bin(Op::Sub, x, y); let w = s.width(x); s.ite(&c, &Val::I(0, w), &d) }); val(r) }
            "uadd" if n.starts_with("uadd.sat") => { let r = self.lanes(&a[0], &a[1], |s, x, y| { let d = s.bin(Op::Add, x, y); let c = s.bin(Op::Ult, &d, x); let w = s.width(x); s.ite(&c, &Val::I(mask(w), w), &d) }); val(r) }
            "sadd" | "ssub" if n.contains(".sat") => { let add = key == "sadd"; let r = self.lanes(&a[0], &a[1], |s, x, y| { let w = s.width(x); let (p, q) = (s.sextv(x, w + 1), s.sextv(y, w + 1)); let d = s.bin(if add { Op::Add } else { Op::Sub }, &p, &q); let mx = Val::I(mask(w) >> 1, w + 1); let mn = Self::kv(!(mask(w) >> 1), w + 1); let hi = s.bin(Op::Slt, &mx, &d); let lo = s.bin(Op::Slt, &d, &mn); let r = s.ite(&hi, &mx, &d); let r = s.ite(&lo, &mn, &r); s.extract(&r, 0, w) }); val(r) }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let (x, y) = (&a[0], &a[1]);
                let w = self.width(x);
                let (tx, ty) = (self.t(x), self.t(y));
                let (al, ah, bl, bh) = (self.ar.smin[tx as usize], self.ar.smax[tx as usize], self.ar.smin[ty as usize], self.ar.smax[ty as usize]);
                let lim = (mask(w) >> 1) as i128;
                let fits = |c: [Option<i128>; 4]| w <= 64 && c.iter().all(|v| v.map_or(false, |v| v >= -lim - 1 && v <= lim));
                let (r, o) = match key {
                    "smul" if fits([al.checked_mul(bl), al.checked_mul(bh), ah.checked_mul(bl), ah.checked_mul(bh)]) => (self.bin(Op::Mul, x, y), Val::I(0, 1)),
                    "sadd" if fits([al.checked_add(bl), ah.checked_add(bh), Some(0), Some(0)]) => (self.bin(Op::Add, x, y), Val::I(0, 1)),
                    "ssub" if fits([al.checked_sub(bh), ah.checked_sub(bl), Some(0), Some(0)]) => (self.bin(Op::Sub, x, y), Val::I(0, 1)),
                    "uadd" => { let r = self.bin(Op::Add, x, y); let zx = self.zext(x, w + 1); let zy = self.zext(y, w + 1); let s = if w < 127 { self.bin(Op::Add, &zx, &zy) } else { r.clone() }; let o = if w < 127 { self.bin(Op::Ult, &Val::I(mask(w), w + 1), &s) } else { self.bin(Op::Ult, &r, x) }; (r, o) }
                    "usub" => { let r = self.bin(Op::Sub, x, y); let o = self.bin(Op::Ult, x, y); (r, o) }
                    "umul" if w <= 64 => { let r = self.bin(Op::Mul, x, y); let (p, q) = (self.zext(x, 2 * w), self.zext(y, 2 * w)); let m = self.bin(Op::Mul, &p, &q); let o = self.bin(Op::Ult, &Val::I(mask(w), 2 * w), &m); (r, o) }
                    "smul" if w <= 64 => { let r = self.bin(Op::Mul, x, y); let (p, q) = (self.sextv(x, 2 * w), self.sextv(y, 2 * w)); let m = self.bin(Op::Mul, &p, &q); let b = self.sextv(&r, 2 * w); let e = self.bin(Op::Eq, &m, &b); let o = self.notv(&e); (r, o) }
                    "sadd" | "ssub" if w < 127 => { let op = if key == "sadd" { Op::Add } else { Op::Sub }; let r = self.bin(op, x, y); let (p, q) = (self.sextv(x, w + 1), self.sextv(y, w + 1)); let m = self.bin(op, &p, &q); let b = self.sextv(&r, w + 1); let e = self.bin(Op::Eq, &m, &b); let o = self.notv(&e); (r, o) }
                    _ => {
                        if let (Val::I(p, _), Val::I(q, _)) = (x, y) {
                            let (r, o) = match key { "umul" => p.overflowing_mul(*q), "smul" => { let (r, o) = (*p as i128).overflowing_mul(*q as i128); (r as u128, o) } "sadd" => { let (r, o) = (*p as i128).overflowing_add(*q as i128); (r as u128, o) } _ => { let (r, o) = (*p as i128).overflowing_sub(*q as i128); (r as u128, o) } };
                            (Val::I(r, w), Val::I(o as u128, 1))
                        } else if key == "sadd" || key == "ssub" {
                            let op = if key == "sadd" { Op::Add } else { Op::Sub };
                            let r = self.bin(op, x, y);
                            let sx = self.extract(x, w - 1, 1); let sy = self.extract(y, w - 1, 1); let sr = self.extract(&r, w - 1, 1);
                            let same = self.bin(Op::Eq, &sx, &sy); let same = if key == "sadd" { same } else { self.notv(&same) };
                            let diff = self.bin(Op::Xor, &sx, &sr); let o = self.bin(Op::And, &same, &diff); (r, o)
                        } else {
                            // 128-bit products: decided through the ranges of the operands
                            let (tx, ty) = (self.t(x), self.t(y));
                            let (hx, hy) = (self.ar.umax[tx as usize], self.ar.umax[ty as usize]);
                            let fits = hx.checked_mul(hy).map_or(false, |h| key == "umul" || h <= mask(127));
                            if !fits { return Err(Stop::Unsup(format!("symbolic {n}"))); }
                            (self.bin(Op::Mul, x, y), Val::I(0, 1))
                        }
                    }
                };
                val(Val::A(Rc::new(vec![r, o])))
            }
            "scmp" | "ucmp" => { let o = if key == "ucmp" { Op::Ult } else { Op::Slt }; let w = ret.bits(); let lt = self.bin(o, &a[0], &a[1]); let gt = self.bin(o, &a[1], &a[0]); let g = self.ite(&gt, &Val::I(1, w), &Val::I(0, w)); let r = self.ite(&lt, &Self::kv(!0, w), &g); val(r) }
            "abs" => { let r = self.map(&a[0], |s, x| { let w = s.width(x); let ng = s.bin(Op::Slt, x, &Val::I(0, w)); let m = s.bin(Op::Sub, &Val::I(0, w), x); s.ite(&ng, &m, x) }); val(r) }
            "ctlz" | "cttz" | "ctpop" => { let r = self.map(&a[0], |s, x| s.bitcount(key, x)); val(r) }
            "bswap" => { let w = self.width(&a[0]); let mut r = self.extract(&a[0], 0, 8); for i in 1..w / 8 { let b = self.extract(&a[0], 8 * i, 8); r = self.concat(&r, &b); } val(r) }
            "bitreverse" => { let w = self.width(&a[0]); let mut r = self.extract(&a[0], 0, 1); for i in 1..w { let b = self.extract(&a[0], i, 1); r = self.concat(&r, &b); } val(r) }
            "fabs" => { let r = self.map(&a[0], |s, x| { let w = s.width(x); s.bin(Op::And, x, &Val::I(mask(w) >> 1, w)) }); val(r) }
            "copysign" => { let r = self.lanes(&a[0], &a[1], |s, x, y| { let w = s.width(x); let m = s.bin(Op::And, x, &Val::I(mask(w) >> 1, w)); let g = s.bin(Op::And, y, &Val::I(1u128 << (w - 1), w)); s.bin(Op::Or, &m, &g) }); val(r) }
            "sqrt" => { let r = self.map(&a[0], |s, x| { let w = s.width(x); s.unf(Op::FSqrt, x, w, 0) }); val(r) }
            "floor" | "ceil" | "trunc" | "rint" | "nearbyint" | "roundeven" | "round" => { let k = match key { "floor" => 0, "ceil" => 1, "trunc" => 2, "round" => 4, _ => 3 }; let r = self.map(&a[0], |s, x| { let w = s.width(x); s.unf(Op::FRnd, x, w, k) }); val(r) }
            "fma" | "fmuladd" => { let r = if key == "fma" { self.tri(a, |s, x, y, z| s.fmav(x, y, z)) } else { self.tri(a, |s, x, y, z| { let m = s.bin(Op::FMul, x, y); s.bin(Op::FAdd, &m, z) }) }; val(r) }
            "minnum" | "minimumnum" => { let r = self.lanes(&a[0], &a[1], |s, x, y| s.fminmax(x, y, true)); val(r) }
            "maxnum" | "maximumnum" => { let r = self.lanes(&a[0], &a[1], |s, x, y| s.fminmax(x, y, false)); val(r) }
            "exp" | "exp2" | "log" | "log2" | "log10" | "sin" | "cos" | "tan" => { let r = self.map(&a[0], |s, x| s.libm1(key, x)); val(r) }
            "pow" => { let r = self.lanes(&a[0], &a[1], |s, x, y| s.libm2("pow", x, y)); val(r) }
            "powi" => { if let (Val::I(x, w), Val::I(k, _)) = (&a[0], &a[1]) { let r = if *w == 32 { f32::from_bits(*x as u32).powi(*k as u32 as i32).to_bits() as u128 } else { f64::from_bits(*x as u64).powi(*k as u32 as i32).to_bits() as u128 }; val(Val::I(r, *w)) } else if let Val::I(k, _) = &a[1] { let k = *k as u32 as i32; if k >= 0 && k <= 4 { let w = self.width(&a[0]); let mut r = if w == 32 { Val::I(1f32.to_bits() as u128, 32) } else { Val::I(1f64.to_bits() as u128, 64) }; for _ in 0..k { r = self.bin(Op::FMul, &r, &a[0]); } val(r) } else { Err(Stop::Unsup("powi".into())) } } else { Err(Stop::Unsup("powi".into())) } }
            "fptosi" | "fptoui" => { let sg = key == "fptosi"; let w = ret.bits(); let x = a[0].clone(); let r = self.fpsat(&x, w, sg); val(r) }
            "vector" if n.starts_with("vector.reduce.") => {
                let o = n.split('.').nth(2).unwrap();
                if let Val::A(l) = a.last().unwrap() { let l = l.clone(); let mut r = l[0].clone(); for x in l[1..].iter() { r = match o { "add" => self.bin(Op::Add, &r, x), "and" => self.bin(Op::And, &r, x), "or" => self.bin(Op::Or, &r, x), "xor" => self.bin(Op::Xor, &r, x), "mul" => self.bin(Op::Mul, &r, x), "umax" => { let c = self.bin(Op::Ult, &r, x); self.ite(&c, x, &r) } "umin" => { let c = self.bin(Op::Ult, &r, x); self.ite(&c, &r, x) } "smax" => { let c = self.bin(Op::Slt, &r, x); self.ite(&c, x, &r) } "smin" => { let c = self.bin(Op::Slt, &r, x); self.ite(&c, &r, x) } _ => return Err(Stop::Unsup(format!("intrinsic {n}"))) }; } val(r) } else { panic!() }
            }
            "trap" | "ubsantrap" | "debugtrap" => Err(Stop::Panic("trap".into(), String::new())),
            _ => { let _ = args; Err(Stop::Unsup(format!("intrinsic {n}"))) }
        }
    }
    /// llvm.is.fpclass: any of the ten classes named by the mask
    fn fpclass(&mut self, x: &Val, m: u128) -> Val {
        let w = self.width(x);
        let (eb, mb) = if w == 32 { (8u16, 23u16) } else { (11, 52) };
        let k = |v: u128| Val::I(v & mask(w), w);
        let sign = self.extract(x, w - 1, 1);
        let abs = self.bin(Op::And, x, &k(mask(w) >> 1));
        let inf = mask(eb) << mb;
        let quiet = inf | 1 << (mb - 1);
        let zero = self.bin(Op::Eq, &abs, &k(0));
        let below = |s: &mut Self, v: u128| s.bin(Op::Ult, &abs, &k(v));
        let (lt_norm, lt_inf, le_inf, lt_quiet) = (below(self, 1 << mb), below(self, inf), below(self, inf + 1), below(self, quiet));
        let nz = self.notv(&zero);
        let sub = self.bin(Op::And, &lt_norm, &nz);
        let ge_norm = self.notv(&lt_norm);
        let norm = self.bin(Op::And, &lt_inf, &ge_norm);
        let ge_inf = self.notv(&lt_inf);
        let infc = self.bin(Op::And, &le_inf, &ge_inf);
        let nan = self.notv(&le_inf);
        let snan = self.bin(Op::And, &nan, &lt_quiet);
        let qnan = self.notv(&lt_quiet);
        let pos = self.notv(&sign);
        let mut r = Val::I(0, 1);
        for (bit, c, sg) in [(0, &snan, None), (1, &qnan, None), (2, &infc, Some(&sign)), (3, &norm, Some(&sign)), (4, &sub, Some(&sign)), (5, &zero, Some(&sign)), (6, &zero, Some(&pos)), (7, &sub, Some(&pos)), (8, &norm, Some(&pos)), (9, &infc, Some(&pos))] {
            if m >> bit & 1 == 0 { continue; }
            let c = match sg { Some(g) => self.bin(Op::And, c, g), None => c.clone() };
            r = self.bin(Op::Or, &r, &c);
        }
        r
    }
    fn fpsat(&mut self, x: &Val, w: u16, sg: bool) -> Val {
        let fw = self.width(x);
        let (lo, hi): (f64, f64) = if sg { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
        let fb = |v: f64| if fw == 32 { Val::I((v as f32).to_bits() as u128, 32) } else { Val::I(v.to_bits() as u128, 64) };
        if let Val::I(b, _) = x {
            let v = if fw == 32 { f32::from_bits(*b as u32) as f64 } else { f64::from_bits(*b as u64) };
            let r: u128 = if v.is_nan() { 0 } else if sg { let c = v.trunc(); if c <= lo { (lo as i128) as u128 } else if c >= hi { mask(w) >> 1 } else { c as i128 as u128 } } else { let c = v.trunc(); if c <= 0.0 { 0 } else if c >= hi { mask(w) } else { c as u128 } };
            return Self::kv(r, w);
        }
        let nan = self.isnan(x);
        let mx = Self::kv(if sg { mask(w) >> 1 } else { mask(w) }, w);
        let mn = if sg { Self::kv(1u128 << (w - 1), w) } else { Val::I(0, w) };
        let conv = self.unf(if sg { Op::FToS } else { Op::FToU }, x, w, 0);
        let ge = self.bin(Op::FLe, &fb(hi), x);
        let le = self.bin(Op::FLe, x, &fb(lo));
        let r = self.ite(&ge, &mx, &conv);
        let r = self.ite(&le, &mn, &r);
        self.ite(&nan, &Val::I(0, w), &r)
    }
    fn tri<F: FnMut(&mut Self, &Val, &Val, &Val) -> Val>(&mut self, a: &[Val], mut f: F) -> Val { if let (Val::A(x), Val::A(y), Val::A(z)) = (&a[0], &a[1], &a[2]) { let (x, y, z) = (x.clone(), y.clone(), z.clone()); Val::A(Rc::new((0..x.len()).map(|i| f(self, &x[i], &y[i], &z[i])).collect())) } else { f(self, &a[0], &a[1], &a[2]) } }
    fn bitcount(&mut self, key: &str, x: &Val) -> Val {
        let w = self.width(x);
        if let Val::I(v, _) = x { let r = match key { "ctpop" => v.count_ones(), "cttz" => if *v == 0 { w as u32 } else { v.trailing_zeros() }, _ => v.leading_zeros() - (128 - w as u32) }; return Val::I(r as u128, w); }
        match key {
            "ctpop" => { let mut r = Val::I(0, w); for i in 0..w { let b = self.extract(x, i, 1); let z = self.zext(&b, w); r = self.bin(Op::Add, &r, &z); } r }
            "cttz" => { let mut r = Val::I(w as u128, w); for i in (0..w).rev() { let b = self.extract(x, i, 1); r = self.ite(&b, &Val::I(i as u128, w), &r); } r }
            _ => { let mut r = Val::I(w as u128, w); for i in 0..w { let b = self.extract(x, i, 1); r = self.ite(&b, &Val::I((w - 1 - i) as u128, w), &r); } r }
        }
    }
}

pub enum Bi { Val(Option<Val>), Yield(Option<Val>), Done }

fn fid(f: &str, w: u16) -> u32 { let mut h = 7u32; for b in f.bytes() { h = h.wrapping_mul(31).wrapping_add(b as u32); } (h ^ w as u32) & 0xffffff }

fn insert(v: &Val, e: &Val, idx: &[u64]) -> Val {
    if idx.is_empty() { return e.clone(); }
    if let Val::A(a) = v { let mut n = (**a).clone(); n[idx[0] as usize] = insert(&a[idx[0] as usize], e, &idx[1..]); Val::A(Rc::new(n)) } else { panic!("insertvalue") }
}
fn fill(d: &mut [u8], off: u64, ty: &Ty, v: &Val) {
    match v {
        Val::A(e) => { if let Ty::Vec(_, t) = ty { if t.bits() % 8 != 0 { return; } } for (i, x) in e.iter().enumerate() { let (o, t) = ty.field(i as u64); fill(d, off + o, &t, x); } }
        Val::I(x, _) => { let n = ty.store_size(); for i in 0..n { d[(off + i) as usize] = ((*x >> (8 * i)) & 0xff) as u8; } }
        _ => panic!(),
    }
}
