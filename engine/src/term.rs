//! Hash-consed bit-vector terms with a light simplifier and a concrete evaluator.
//! Terms of width 1 are booleans.  Floating-point operations work on the bit patterns.
use std::cell::RefCell;
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Not, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Ule, Slt, Sle,
    FAdd, FSub, FMul, FDiv, FSqrt, FFma, FRnd, FLt, FLe, FEq, FNan, FToS, FToU, SToF, UToF, FCvt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: T, pub b: T, pub c: T, pub k: u128 }

pub struct Arena {
    pub nodes: Vec<Node>,
    pub umin: Vec<u128>,
    pub umax: Vec<u128>,
    pub smin: Vec<i128>,
    pub smax: Vec<i128>,
    pub var_max: Vec<u128>,
    pub fp: Vec<bool>,
    /// variables of each term, as a sorted shared vector
    pub vars: Vec<std::rc::Rc<Vec<u32>>>,
    /// range of a floating-point term that is known to be finite (lower bound NaN: not known)
    frng: Vec<(f64, f64)>,
    map: HashMap<Node, T, std::hash::BuildHasherDefault<Fx>>,
    pub var_width: Vec<u16>,
    pub var_map: HashMap<(u32, u16, u32), T>,
    pub uf: HashMap<(u32, Vec<T>), T>,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_u16(&mut self, v: u16) { self.write_u64(v as u64) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, v: u128) { self.write_u64(v as u64); self.write_u64((v >> 64) as u64) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_isize(&mut self, v: isize) { self.write_u64(v as u64) }
}

pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s }
}

thread_local! { pub static AR: RefCell<Arena> = RefCell::new(Arena::new()); }

/// Concrete semantics of every operator (shared by constant folding and model evaluation).
pub fn apply(n: &Node, aw: u16, a: u128, b: u128, c: u128, bw: u16) -> u128 {
    let w = n.w;
    let m = mask(w);
    match n.op {
        Op::Const => n.k,
        Op::Var => unreachable!(),
        Op::Not => !a & m,
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = sext(a, w); let sh = if b >= w as u128 { w as u128 - 1 } else { b }; ((s >> sh) as u128) & m }
        Op::Concat => ((a << bw) | b) & m,
        Op::Extract => (a >> (n.k as u32)) & m,
        Op::ZExt => a,
        Op::SExt => (sext(a, aw) as u128) & m,
        Op::Ite => if a != 0 { b } else { c },
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::Sle => (sext(a, aw) <= sext(b, aw)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => if w == 32 {
            let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
            let r = match n.op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y };
            canon32(r)
        } else {
            let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
            let r = match n.op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y };
            canon64(r)
        },
        Op::FSqrt => if w == 32 { canon32(f32::from_bits(a as u32).sqrt()) } else { canon64(f64::from_bits(a as u64).sqrt()) },
        Op::FFma => if w == 32 { canon32(f32::from_bits(a as u32).mul_add(f32::from_bits(b as u32), f32::from_bits(c as u32))) }
            else { canon64(f64::from_bits(a as u64).mul_add(f64::from_bits(b as u64), f64::from_bits(c as u64))) },
        Op::FRnd => if w == 32 { let x = f32::from_bits(a as u32); canon32(match n.k { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), 3 => x.round_ties_even(), _ => x.round() }) }
            else { let x = f64::from_bits(a as u64); canon64(match n.k { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), 3 => x.round_ties_even(), _ => x.round() }) },
        Op::FLt => (if aw == 32 { f32::from_bits(a as u32) < f32::from_bits(b as u32) } else { f64::from_bits(a as u64) < f64::from_bits(b as u64) }) as u128,
        Op::FLe => (if aw == 32 { f32::from_bits(a as u32) <= f32::from_bits(b as u32) } else { f64::from_bits(a as u64) <= f64::from_bits(b as u64) }) as u128,
        Op::FEq => (if aw == 32 { f32::from_bits(a as u32) == f32::from_bits(b as u32) } else { f64::from_bits(a as u64) == f64::from_bits(b as u64) }) as u128,
        Op::FNan => (if aw == 32 { f32::from_bits(a as u32).is_nan() } else { f64::from_bits(a as u64).is_nan() }) as u128,
        // out-of-range float->int conversions are undefined in IR; the executor only uses these guarded
        Op::FToS => { let x = fval(a, aw).trunc(); (x as i128 as u128) & m }
        Op::FToU => { let x = fval(a, aw).trunc(); (x as u128) & m }
        Op::SToF => if w == 32 { (sext(a, aw) as f32).to_bits() as u128 } else { (sext(a, aw) as f64).to_bits() as u128 },
        Op::UToF => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        Op::FCvt => if w == 32 { canon32(f64::from_bits(a as u64) as f32) } else { canon64(f32::from_bits(a as u32) as f64) },
    }
}
fn canon32(r: f32) -> u128 { if r.is_nan() { 0x7fc00000 } else { r.to_bits() as u128 } }
fn canon64(r: f64) -> u128 { if r.is_nan() { 0x7ff8000000000000 } else { r.to_bits() as u128 } }
fn fval(a: u128, w: u16) -> f64 { if w == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) } }

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], umin: vec![], umax: vec![], smin: vec![], smax: vec![], var_max: vec![], fp: vec![], vars: vec![], frng: vec![], map: Default::default(), var_width: vec![], var_map: HashMap::new(), uf: HashMap::new() };
        a.konst(0, 1);
        a.konst(1, 1);
        a
    }
    fn mk(&mut self, op: Op, w: u16, a: T, b: T, c: T, k: u128) -> T {
        let n = Node { op, w, a, b, c, k };
        if let Some(t) = self.map.get(&n) { return *t; }
        let id = self.nodes.len() as T;
        let (mut lo, mut hi) = self.range(&n);
        let half = mask(w) >> 1;
        let (slo, shi) = if hi <= half { (lo as i128, hi as i128) } else {
            let r = self.srange(&n);
            if r.0 >= 0 { lo = lo.max(r.0 as u128); hi = hi.min(r.1 as u128); }
            r
        };
        self.nodes.push(n);
        self.umin.push(lo);
        self.umax.push(hi);
        self.smin.push(slo);
        self.smax.push(shi);
        let isfp = matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FFma | Op::FRnd | Op::FLt | Op::FLe | Op::FEq | Op::FNan | Op::FToS | Op::FToU | Op::SToF | Op::UToF | Op::FCvt);
        let ar = arity(op);
        let f = isfp || (ar >= 1 && self.fp[a as usize]) || (ar >= 2 && self.fp[b as usize]) || (ar >= 3 && self.fp[c as usize]);
        self.fp.push(f);
        let fr = if w == 32 || w == 64 { self.frange(&n).unwrap_or((f64::NAN, 0.0)) } else { (f64::NAN, 0.0) };
        self.frng.push(fr);
        let vs = match op {
            Op::Const => std::rc::Rc::new(vec![]),
            Op::Var => std::rc::Rc::new(vec![k as u32]),
            _ => {
                let mut s = self.vars[a as usize].clone();
                if ar >= 2 { s = merge(&s, &self.vars[b as usize]); }
                if ar >= 3 { s = merge(&s, &self.vars[c as usize]); }
                s
            }
        };
        self.vars.push(vs);
        self.map.insert(n, id);
        id
    }
    /// Range of a term read as a floating-point number, when it is known to be finite and not NaN.
    pub fn fr(&self, t: T) -> Option<(f64, f64)> { let r = self.frng[t as usize]; if r.0.is_nan() { None } else { Some(r) } }
    /// Rounding is monotone, so interval arithmetic in the same precision bounds the rounded results.
    fn frange(&self, n: &Node) -> Option<(f64, f64)> {
        let w = n.w;
        let rnd = |v: f64| if w == 32 { v as f32 as f64 } else { v };
        let op2 = |op: Op, x: f64, y: f64| if w == 32 { let (x, y) = (x as f32, y as f32); (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y }) as f64 } else { match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y } };
        let fit = |lo: f64, hi: f64| if lo.is_finite() && hi.is_finite() && lo <= hi { Some((lo, hi)) } else { None };
        match n.op {
            Op::Const => { let v = fval(n.k, w); fit(v, v) }
            Op::SToF => { let (lo, hi) = (self.smin[n.a as usize], self.smax[n.a as usize]); if w == 32 { fit(lo as f32 as f64, hi as f32 as f64) } else { fit(lo as f64, hi as f64) } }
            Op::UToF => { let (lo, hi) = (self.umin[n.a as usize], self.umax[n.a as usize]); if w == 32 { fit(lo as f32 as f64, hi as f32 as f64) } else { fit(lo as f64, hi as f64) } }
            Op::FCvt => { let (lo, hi) = self.fr(n.a)?; fit(rnd(lo), rnd(hi)) }
            Op::FRnd => { let (lo, hi) = self.fr(n.a)?; fit(lo.floor(), hi.ceil()) }
            Op::FSqrt => { let (lo, hi) = self.fr(n.a)?; if lo < 0.0 { return None; } if w == 32 { fit((lo as f32).sqrt() as f64, (hi as f32).sqrt() as f64) } else { fit(lo.sqrt(), hi.sqrt()) } }
            Op::FAdd => { let (a, b) = (self.fr(n.a)?, self.fr(n.b)?); fit(op2(n.op, a.0, b.0), op2(n.op, a.1, b.1)) }
            Op::FSub => { let (a, b) = (self.fr(n.a)?, self.fr(n.b)?); fit(op2(n.op, a.0, b.1), op2(n.op, a.1, b.0)) }
            Op::FMul | Op::FDiv => {
                let (a, b) = (self.fr(n.a)?, self.fr(n.b)?);
                if n.op == Op::FDiv && b.0 <= 0.0 && b.1 >= 0.0 { return None; }
                let c = [op2(n.op, a.0, b.0), op2(n.op, a.0, b.1), op2(n.op, a.1, b.0), op2(n.op, a.1, b.1)];
                if c.iter().any(|v| !v.is_finite()) { return None; }
                fit(c.iter().copied().fold(f64::INFINITY, f64::min), c.iter().copied().fold(f64::NEG_INFINITY, f64::max))
            }
            Op::Ite => { let (a, b) = (self.fr(n.b)?, self.fr(n.c)?); fit(a.0.min(b.0), a.1.max(b.1)) }
            Op::And if self.cv(n.b) == Some(mask(w) >> 1) => { let (lo, hi) = self.fr(n.a)?; if lo >= 0.0 { fit(lo, hi) } else if hi <= 0.0 { fit(-hi, -lo) } else { fit(0.0, hi.max(-lo)) } }
            Op::Xor if self.cv(n.b) == Some((mask(w) >> 1) + 1) => { let (lo, hi) = self.fr(n.a)?; fit(-hi, -lo) }
            _ => None,
        }
    }
    fn never_neg_zero(&self, t: T) -> bool {
        let n = self.n(t);
        if let Some((lo, hi)) = self.fr(t) { if lo > 0.0 || hi < 0.0 { return true; } }
        match n.op {
            Op::Const => n.k != (mask(n.w) >> 1) + 1,
            Op::SToF | Op::UToF => true,
            Op::FAdd => self.never_neg_zero(n.a) || self.never_neg_zero(n.b),
            Op::FSub => self.never_neg_zero(n.a),
            Op::FCvt => n.w == 64 && self.never_neg_zero(n.a),
            _ => false,
        }
    }
    /// Folding by ranges, and additions of a zero of either sign.
    fn fold_by_range(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let (x, y) = (self.fr(a), self.fr(b));
        match op {
            Op::FEq | Op::FLe if a == b && x.is_some() => Some(self.konst(1, 1)),
            Op::FLt => { let (x, y) = (x?, y?); if x.1 < y.0 { Some(self.konst(1, 1)) } else if x.0 >= y.1 { Some(self.konst(0, 1)) } else { None } }
            Op::FLe => { let (x, y) = (x?, y?); if x.1 <= y.0 { Some(self.konst(1, 1)) } else if x.0 > y.1 { Some(self.konst(0, 1)) } else { None } }
            Op::FEq => { let (x, y) = (x?, y?); if x.1 < y.0 || y.1 < x.0 { Some(self.konst(0, 1)) } else if x == y && x.0 == x.1 { Some(self.konst(1, 1)) } else { None } }
            Op::FAdd => {
                if y == Some((0.0, 0.0)) && self.never_neg_zero(a) { return Some(a); }
                if x == Some((0.0, 0.0)) && self.never_neg_zero(b) { return Some(b); }
                None
            }
            _ => None,
        }
    }
    fn range(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let r = |t: T| (self.umin[t as usize], self.umax[t as usize]);
        match n.op {
            Op::Const => (n.k, n.k),
            Op::Var => (0, self.var_max.get(n.k as usize).copied().unwrap_or(m)),
            Op::ZExt => r(n.a),
            Op::And => (0, r(n.a).1.min(r(n.b).1)),
            Op::Or | Op::Xor => {
                let h = r(n.a).1 | r(n.b).1;
                let bits = 128 - h.leading_zeros();
                (if n.op == Op::Or { r(n.a).0.max(r(n.b).0) } else { 0 }, if bits >= 128 { m } else { ((1u128 << bits) - 1).min(m) })
            }
            Op::Add => { let (a, b) = (r(n.a), r(n.b)); match a.1.checked_add(b.1) { Some(h) if h <= m => (a.0 + b.0, h), _ => {
                // adding a negative constant
                let kb = if self.nodes[n.b as usize].op == Op::Const { self.nodes[n.b as usize].k } else { return (0, m) };
                let neg = (m - kb).wrapping_add(1) & m;
                if a.0 >= neg { (a.0 - neg, a.1 - neg) } else { (0, m) }
            } } }
            Op::Sub => { let (a, b) = (r(n.a), r(n.b)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { (0, m) } }
            Op::Mul => { let (a, b) = (r(n.a), r(n.b)); match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => (0, m) } }
            Op::UDiv => { let (a, b) = (r(n.a), r(n.b)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { (0, m) } }
            Op::URem => { let (a, b) = (r(n.a), r(n.b)); if b.0 > 0 { (0, a.1.min(b.1 - 1)) } else { (0, m) } }
            Op::LShr => { let (a, b) = (r(n.a), r(n.b)); if b.1 < 128 { (a.0 >> b.1.min(127), a.1 >> b.0) } else if b.0 < 128 { (0, a.1 >> b.0) } else { (0, m) } }
            Op::Shl => { let (a, b) = (r(n.a), r(n.b)); if b.0 == b.1 && b.0 < n.w as u128 && a.1.leading_zeros() as u128 > b.0 && (a.1 << b.0) <= m { (a.0 << b.0, a.1 << b.0) } else { (0, m) } }
            Op::Ite => { let (a, b) = (r(n.b), r(n.c)); (a.0.min(b.0), a.1.max(b.1)) }
            Op::Concat => { let bw = self.nodes[n.b as usize].w; let (a, b) = (r(n.a), r(n.b)); ((a.0 << bw) + b.0, (a.1 << bw) + b.1) }
            Op::Extract => { let a = r(n.a); if n.k == 0 && a.1 <= m { a } else { let h = a.1 >> n.k; if h <= m { (a.0 >> n.k, h) } else { (0, m) } } }
            _ => (0, m),
        }
    }
    fn srange(&self, n: &Node) -> (i128, i128) {
        if n.w > 100 { return (i128::MIN, i128::MAX); }
        let half = (mask(n.w) >> 1) as i128;
        let full = (-half - 1, half);
        let r = |t: T| (self.smin[t as usize], self.smax[t as usize]);
        let fit = |a: Option<i128>, b: Option<i128>| match (a, b) { (Some(a), Some(b)) if a >= full.0 && b <= full.1 => (a, b), _ => full };
        let kc = |t: T| { let m = &self.nodes[t as usize]; if m.op == Op::Const { Some(sext(m.k, m.w)) } else { None } };
        match n.op {
            Op::Const => { let v = sext(n.k, n.w); (v, v) }
            Op::Add => { let (a, b) = (r(n.a), r(n.b)); fit(a.0.checked_add(b.0), a.1.checked_add(b.1)) }
            Op::Sub => { let (a, b) = (r(n.a), r(n.b)); fit(a.0.checked_sub(b.1), a.1.checked_sub(b.0)) }
            Op::Mul => match kc(n.b) { Some(k) => { let a = r(n.a); match (a.0.checked_mul(k), a.1.checked_mul(k)) { (Some(x), Some(y)) => fit(Some(x.min(y)), Some(x.max(y))), _ => full } } None => {
                let (a, b) = (r(n.a), r(n.b));
                let c = [a.0.checked_mul(b.0), a.0.checked_mul(b.1), a.1.checked_mul(b.0), a.1.checked_mul(b.1)];
                if c.iter().all(|x| x.is_some()) { fit(c.iter().map(|x| x.unwrap()).min(), c.iter().map(|x| x.unwrap()).max()) } else { full }
            } },
            Op::SDiv => match kc(n.b) { Some(k) if k > 0 => { let a = r(n.a); (a.0 / k, a.1 / k) } _ => full },
            Op::SRem => match kc(n.b) { Some(k) if k > 0 => { let a = r(n.a); (if a.0 < 0 { (-(k - 1)).max(a.0) } else { 0 }, if a.1 > 0 { (k - 1).min(a.1) } else { 0 }) } _ => full },
            Op::SExt => r(n.a),
            Op::FToS => match self.fr(n.a) { Some((lo, hi)) if lo.abs() < 1e18 && hi.abs() < 1e18 => fit(Some(lo.trunc() as i128), Some(hi.trunc() as i128)), _ => full },
            Op::Ite => { let (a, b) = (r(n.b), r(n.c)); (a.0.min(b.0), a.1.max(b.1)) }
            Op::Extract => {
                let aw = self.nodes[n.a as usize].w;
                let a = r(n.a);
                if aw > 100 { return full; }
                if n.k as u16 + n.w == aw { return (a.0 >> n.k, a.1 >> n.k); }
                if n.k == 0 && a.0 >= full.0 && a.1 <= full.1 { return a; }
                full
            }
            _ => full,
        }
    }
    pub fn n(&self, t: T) -> Node { self.nodes[t as usize] }
    pub fn w(&self, t: T) -> u16 { self.nodes[t as usize].w }
    pub fn cv(&self, t: T) -> Option<u128> { let n = &self.nodes[t as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    pub fn konst(&mut self, v: u128, w: u16) -> T { self.mk(Op::Const, w, 0, 0, 0, v & mask(w)) }
    pub fn var(&mut self, seq: u32, w: u16, ns: u32) -> T {
        if let Some(t) = self.var_map.get(&(seq, w, ns)) { return *t; }
        self.var_bounded(seq, w, ns, mask(w))
    }
    /// A variable declared to be at most `max` (the caller adds the bound to the path condition with `raw_ule`).
    pub fn var_bounded(&mut self, seq: u32, w: u16, ns: u32, max: u128) -> T {
        let key = (seq, w, ns);
        if let Some(t) = self.var_map.get(&key) { let i = self.nodes[*t as usize].k as usize; if self.var_max[i] == max { return *t; } }
        let key2 = (seq, w, ns ^ 0x4000_0000 ^ ((max as u32) << 2) ^ ((max >> 32) as u32).rotate_left(17));
        let key = if self.var_map.contains_key(&key) { key2 } else { key };
        if let Some(t) = self.var_map.get(&key) { let i = self.nodes[*t as usize].k as usize; if self.var_max[i] == max { return *t; } }
        let idx = self.var_width.len() as u32;
        self.var_width.push(w);
        self.var_max.push(max);
        let t = self.mk(Op::Var, w, 0, 0, 0, idx as u128);
        self.var_map.insert(key, t);
        t
    }
    pub fn raw_ule(&mut self, a: T, k: u128) -> T { let w = self.w(a); let b = self.konst(k, w); self.mk(Op::Ule, 1, a, b, 0, 0) }
    /// An uninterpreted function application: one variable per distinct argument tuple.
    pub fn ufapp(&mut self, f: u32, args: Vec<T>, w: u16) -> T {
        if let Some(t) = self.uf.get(&(f, args.clone())) { return *t; }
        let k = self.uf.len() as u32;
        let t = self.var(k, w, 1000 + f);
        self.uf.insert((f, args), t);
        t
    }
    /// What is known about the values of an application (also to be assumed on the path).
    pub fn bound_uf(&mut self, t: T, lo: f64, hi: f64) { self.frng[t as usize] = (lo, hi); }
    /// A condition as it stands, not folded away by what it says.
    pub fn raw(&mut self, op: Op, a: T, b: T) -> T { self.mk(op, 1, a, b, 0, 0) }
    pub fn not(&mut self, a: T) -> T {
        let n = self.n(a);
        if let Some(k) = self.cv(a) { return self.konst(!k, n.w); }
        if n.op == Op::Not { return n.a; }
        if n.w == 1 {
            match n.op {
                Op::Ult => return self.bin(Op::Ule, n.b, n.a),
                Op::Ule => return self.bin(Op::Ult, n.b, n.a),
                Op::Slt => return self.bin(Op::Sle, n.b, n.a),
                Op::Sle => return self.bin(Op::Slt, n.b, n.a),
                _ => {}
            }
        }
        self.mk(Op::Not, n.w, a, 0, 0, 0)
    }
    pub fn and1(&mut self, a: T, b: T) -> T { self.bin(Op::And, a, b) }
    pub fn or1(&mut self, a: T, b: T) -> T { self.bin(Op::Or, a, b) }
    pub fn bin(&mut self, op: Op, mut a: T, mut b: T) -> T {
        let aw = self.w(a);
        debug_assert!(aw == self.w(b), "width mismatch {:?} {} {}", op, aw, self.w(b));
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FLt | Op::FLe | Op::FEq);
        let w = if cmp { 1 } else { aw };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let n = Node { op, w, a, b, c: 0, k: 0 };
            let v = apply(&n, aw, x, y, 0, aw);
            return self.konst(v, w);
        }
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::FAdd | Op::FMul | Op::FEq) {
            let ca = self.cv(a).is_some();
            let cb = self.cv(b).is_some();
            if (ca && !cb) || (!ca && !cb && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let (na, nb) = (self.n(a), self.n(b));
        let ka = self.cv(a);
        let kb = self.cv(b);
        let m = mask(aw);
        // the sign of a product or quotient is pulled out (NaN signs are not observable)
        if matches!(op, Op::FMul | Op::FDiv) {
            let sg = 1u128 << (aw - 1);
            let neg = |s: &Self, t: T| -> Option<T> { let n = s.n(t); if n.op == Op::Xor { if s.cv(n.b) == Some(sg) { return Some(n.a); } if s.cv(n.a) == Some(sg) { return Some(n.b); } } None };
            let fneg = |s: &mut Self, t: T| { let k = s.konst(sg, aw); s.bin(Op::Xor, t, k) };
            let (mut x, mut y, mut flip) = (a, b, false);
            if let Some(t) = neg(self, a) { x = t; flip = !flip; } else if let Some(v) = ka { if v & sg != 0 { x = self.konst(v ^ sg, aw); flip = !flip; } }
            if let Some(t) = neg(self, b) { y = t; flip = !flip; } else if let Some(v) = kb { if v & sg != 0 { y = self.konst(v ^ sg, aw); flip = !flip; } }
            if x != a || y != b { if let Some(r) = self.fexact(op, a, b, aw) { return r; } let r = self.bin(op, x, y); return if flip { fneg(self, r) } else { r }; }
        }
        match op {
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLt | Op::FLe | Op::FEq => { if let Some(r) = self.fexact(op, a, b, aw) { return r; } if let Some(r) = self.fold_by_range(op, a, b) { return r; } }
            Op::Eq if (aw == 64 || aw == 32) && (matches!(na.op, Op::SToF | Op::UToF | Op::FDiv)) => if let Some(r) = self.fexact(op, a, b, aw) { return r; },
            _ => {}
        }
        match op {
            Op::Add => {
                if kb == Some(0) { return a; }
                if let (Some(k), Op::Add) = (kb, na.op) { if let Some(k2) = self.cv(na.b) { let c = self.konst(k.wrapping_add(k2), aw); return self.bin(Op::Add, na.a, c); } }
                if let (Some(k), Op::Ite) = (kb, na.op) { if self.cv(na.b).is_some() && self.cv(na.c).is_some() { let kk = self.konst(k, aw); let x = self.bin(Op::Add, na.b, kk); let y = self.bin(Op::Add, na.c, kk); return self.ite(na.a, x, y); } }
                if let Some(r) = self.lane_add(a, b) { return r; }
                // (x - y) + y
                if na.op == Op::Sub && na.b == b { return na.a; }
                if nb.op == Op::Sub && nb.b == a { return nb.a; }
            }
            Op::Sub => {
                if a == b { return self.konst(0, aw); }
                if kb == Some(0) { return a; }
                if let Some(k) = kb { let c = self.konst(0u128.wrapping_sub(k), aw); return self.bin(Op::Add, a, c); }
                if nb.op == Op::Mul { let q = self.n(nb.a); if q.op == Op::UDiv && q.a == a && q.b == nb.b && self.cv(nb.b).map_or(false, |k| k > 0) { return self.bin(Op::URem, a, nb.b); } }
                if na.op == Op::Add { if na.a == b { return na.b; } if na.b == b { return na.a; } }
                if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a { return self.bin(Op::Sub, na.b, nb.b); }
                if nb.op == Op::Add && nb.a == a { if let Some(k) = self.cv(nb.b) { return self.konst(0u128.wrapping_sub(k), aw); } }
            }
            Op::Mul => {
                if kb == Some(0) { return b; }
                if kb == Some(1) { return a; }
                if let Some(k) = kb { if k.is_power_of_two() { let s = self.konst(k.trailing_zeros() as u128, aw); return self.bin(Op::Shl, a, s); } }
                if let (Some(k), Op::Mul) = (kb, na.op) { if let Some(k2) = self.cv(na.b) { let c = self.konst(k.wrapping_mul(k2), aw); return self.bin(Op::Mul, na.a, c); } }
                if let Some(k) = kb { if let Some(r) = self.lane_mul(a, k) { return r; } }
            }
            Op::UDiv => { if kb == Some(1) { return a; }
                if let Some(k) = kb { if na.op == Op::Mul && self.cv(na.b) == Some(k) && self.umax[na.a as usize].checked_mul(k).map_or(false, |h| h <= m) { return na.a; } } if let Some(k) = kb { if k.is_power_of_two() { let s = self.konst(k.trailing_zeros() as u128, aw); return self.bin(Op::LShr, a, s); } if self.umax[a as usize] < k { return self.konst(0, aw); } } }
            Op::URem => { if kb == Some(1) { return self.konst(0, aw); } if let Some(k) = kb { if k.is_power_of_two() { let s = self.konst(k - 1, aw); return self.bin(Op::And, a, s); } if self.umax[a as usize] < k { return a; } } }
            Op::SDiv | Op::SRem => {
                if op == Op::SDiv && kb == Some(1) { return a; }
                let h = mask(aw) >> 1;
                if self.umax[a as usize] <= h && self.umax[b as usize] <= h { return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b); }
                if op == Op::SDiv { if let Some(k) = kb { if k > 1 && k <= h {
                    if na.op == Op::Mul && self.cv(na.b).map_or(false, |c| c == k) && self.mul_fits(na.a, k as i128, aw) { return na.a; }
                } } }
            }
            Op::And => {
                if a == b { return a; }
                if kb == Some(0) { return b; }
                if kb == Some(m) { return a; }
                if aw == 1 && (na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a) { return self.konst(0, 1); }
                if let Some(k) = kb {
                    if self.is_lanes(a) && (k & (k + 1)) != 0 {
                        let l = self.lanes(a);
                        let mut pos = 0u16;
                        let mut r: Option<T> = None;
                        for (w, t) in l {
                            let km = (k >> pos) & mask(w);
                            let kk = self.konst(km, w);
                            let v = self.bin(Op::And, t, kk);
                            r = Some(match r { None => v, Some(x) => self.concat(v, x) });
                            pos += w;
                        }
                        return r.unwrap();
                    }
                    // contiguous low mask
                    if (k & (k + 1)) == 0 { let bits = 128 - k.leading_zeros() as u16; if bits < aw { if self.umax[a as usize] <= k { return a; } let e = self.extract(a, 0, bits); return self.zext(e, aw); } }
                    else {
                        let tz = k.trailing_zeros(); let s = k >> tz;
                        if (s & (s + 1)) == 0 { let bits = 128 - s.leading_zeros() as u16; let e = self.extract(a, tz as u16, bits); let z = self.konst(0, tz as u16); let c = self.concat(e, z); return self.zext(c, aw); }
                    }
                    if let Op::And = na.op { if let Some(k2) = self.cv(na.b) { let c = self.konst(k & k2, aw); return self.bin(Op::And, na.a, c); } }
                }
            }
            Op::Or => {
                if a == b { return a; }
                if kb == Some(0) { return a; }
                if kb == Some(m) { return b; }
                if aw == 1 && (na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a) { return self.konst(1, 1); }
                if aw > 1 { if let Some(r) = self.lane_or(a, b) { return r; } }
                if aw > 1 { if let Some(r) = self.or_concat(a, b).or_else(|| self.or_concat(b, a)) { return r; } }
            }
            Op::Xor => {
                if a == b { return self.konst(0, aw); }
                if kb == Some(0) { return a; }
                if kb == Some(m) { return self.not(a); }
                if let (Some(k), Op::Xor) = (kb, na.op) { if let Some(k2) = self.cv(na.b) { let c = self.konst(k ^ k2, aw); return self.bin(Op::Xor, na.a, c); } }
                if aw == 1 { let e = self.bin(Op::Eq, a, b); return self.not(e); }
            }
            Op::Shl => {
                if kb == Some(0) { return a; }
                if ka == Some(0) { return a; }
                if let Some(k) = kb { if k >= aw as u128 { return self.konst(0, aw); } let e = self.extract(a, 0, aw - k as u16); let z = self.konst(0, k as u16); return self.concat(e, z); }
            }
            Op::LShr => {
                if kb == Some(0) { return a; }
                if ka == Some(0) { return a; }
                if let Some(k) = kb { if k >= aw as u128 { return self.konst(0, aw); } let e = self.extract(a, k as u16, aw - k as u16); return self.zext(e, aw); }
            }
            Op::AShr => {
                if kb == Some(0) { return a; }
                if let Some(k) = kb { let k = k.min(aw as u128 - 1) as u16; let e = self.extract(a, k, aw - k); return self.sext(e, aw); }
            }
            Op::Eq => {
                if a == b { return self.konst(1, 1); }
                if self.umax[a as usize] < self.umin[b as usize] || self.umax[b as usize] < self.umin[a as usize] { return self.konst(0, 1); }
                if aw == 1 { if let Some(k) = kb { return if k == 1 { a } else { self.not(a) }; } }
                if let Some(k) = kb {
                    match na.op {
                        Op::ZExt => { let c = self.konst(k, self.w(na.a)); return self.bin(Op::Eq, na.a, c); }
                        Op::SExt => { let iw = self.w(na.a); let lo = k & mask(iw); if (sext(lo, iw) as u128) & m != k { return self.konst(0, 1); } let c = self.konst(lo, iw); return self.bin(Op::Eq, na.a, c); }
                        Op::Add => if let Some(k2) = self.cv(na.b) { let c = self.konst(k.wrapping_sub(k2), aw); return self.bin(Op::Eq, na.a, c); },
                        Op::Sub => if k == 0 { return self.bin(Op::Eq, na.a, na.b); },
                        Op::Xor => { if let Some(k2) = self.cv(na.b) { let c = self.konst(k ^ k2, aw); return self.bin(Op::Eq, na.a, c); } if k == 0 { return self.bin(Op::Eq, na.a, na.b); } }
                        Op::Not => { let c = self.konst(!k, aw); return self.bin(Op::Eq, na.a, c); }
                        Op::Concat => { let bw = self.w(na.b); let hi = self.konst(k >> bw, self.w(na.a)); let lo = self.konst(k, bw); let x = self.bin(Op::Eq, na.a, hi); let y = self.bin(Op::Eq, na.b, lo); return self.bin(Op::And, x, y); }
                        Op::Ite => {
                            let (x, y) = (self.cv(na.b), self.cv(na.c));
                            if x.is_some() || y.is_some() {
                                let kk = self.konst(k, aw);
                                let p = self.bin(Op::Eq, na.b, kk);
                                let q = self.bin(Op::Eq, na.c, kk);
                                return self.ite(na.a, p, q);
                            }
                        }
                        _ => {}
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.bin(Op::Eq, na.a, nb.a); }
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) { let x = self.bin(Op::Eq, na.a, nb.a); let y = self.bin(Op::Eq, na.b, nb.b); return self.bin(Op::And, x, y); }
            }
            Op::Ult => {
                if a == b { return self.konst(0, 1); }
                if self.umax[a as usize] < self.umin[b as usize] { return self.konst(1, 1); }
                if self.umin[a as usize] >= self.umax[b as usize] { return self.konst(0, 1); }
                if aw == 1 { let na_ = self.not(a); return self.bin(Op::And, na_, b); }
                if let (Some(k), Op::ZExt) = (kb, na.op) { let iw = self.w(na.a); if k > mask(iw) { return self.konst(1, 1); } let c = self.konst(k, iw); return self.bin(Op::Ult, na.a, c); }
                if let (Some(k), Op::ZExt) = (ka, nb.op) { let iw = self.w(nb.a); if k >= mask(iw) { return self.konst(0, 1); } let c = self.konst(k, iw); return self.bin(Op::Ult, c, nb.a); }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ult, na.a, nb.a); }
                if kb == Some(1) { let z = self.konst(0, aw); return self.bin(Op::Eq, a, z); }
                if ka == Some(0) { let z = self.konst(0, aw); let e = self.bin(Op::Eq, b, z); return self.not(e); }
            }
            Op::Ule => {
                if a == b { return self.konst(1, 1); }
                if self.umax[a as usize] <= self.umin[b as usize] { return self.konst(1, 1); }
                if self.umin[a as usize] > self.umax[b as usize] { return self.konst(0, 1); }
                if aw == 1 { let na_ = self.not(a); return self.bin(Op::Or, na_, b); }
                if let (Some(k), Op::ZExt) = (kb, na.op) { let iw = self.w(na.a); if k >= mask(iw) { return self.konst(1, 1); } let c = self.konst(k, iw); return self.bin(Op::Ule, na.a, c); }
                if let (Some(k), Op::ZExt) = (ka, nb.op) { let iw = self.w(nb.a); if k > mask(iw) { return self.konst(0, 1); } let c = self.konst(k, iw); return self.bin(Op::Ule, c, nb.a); }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ule, na.a, nb.a); }
                if kb == Some(0) { let z = self.konst(0, aw); return self.bin(Op::Eq, a, z); }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.konst((op == Op::Sle) as u128, 1); }
                // both provably non-negative: unsigned comparison
                let sm = mask(aw) >> 1;
                let (al, ah, bl, bh) = (self.smin[a as usize], self.smax[a as usize], self.smin[b as usize], self.smax[b as usize]);
                if if op == Op::Slt { ah < bl } else { ah <= bl } { return self.konst(1, 1); }
                if if op == Op::Slt { al >= bh } else { al > bh } { return self.konst(0, 1); }
                if self.umax[a as usize] <= sm && self.umax[b as usize] <= sm { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.bin(op, na.a, nb.a); }
            }
            _ => {}
        }
        self.mk(op, w, a, b, 0, 0)
    }
    /// concatenation of independent lanes (possibly zero-extended)
    fn is_lanes(&self, t: T) -> bool { let n = self.n(t); n.op == Op::Concat || n.op == Op::ZExt && self.n(n.a).op == Op::Concat }
    /// lanes from the least significant end
    fn lanes(&mut self, t: T) -> Vec<(u16, T)> {
        let n = self.n(t);
        match n.op {
            Op::Concat => { let mut l = self.lanes(n.b); l.extend(self.lanes(n.a)); l }
            Op::ZExt => { let mut l = self.lanes(n.a); let w = n.w - self.w(n.a); let z = self.konst(0, w); l.push((w, z)); l }
            _ => vec![(n.w, t)],
        }
    }
    fn lane_mul(&mut self, a: T, k: u128) -> Option<T> {
        if !self.is_lanes(a) { return None; }
        let l = self.lanes(a);
        // a lane and the zero lanes above it form one cell
        let mut cells: Vec<(u16, T)> = vec![];
        for (w, t) in l {
            if self.cv(t) == Some(0) && !cells.is_empty() { let c = cells.last_mut().unwrap(); let nw = c.0 + w; let t0 = c.1; c.0 = nw; let z = self.zext(t0, nw); cells.last_mut().unwrap().1 = z; } else { cells.push((w, t)); }
        }
        if cells.len() < 2 { return None; }
        for (w, t) in &cells[..cells.len() - 1] { if self.umax[*t as usize].checked_mul(k).map_or(true, |v| v > mask(*w)) { return None; } }
        let mut r: Option<T> = None;
        for (w, t) in cells { let kk = self.konst(k, w); let v = self.bin(Op::Mul, t, kk); r = Some(match r { None => v, Some(x) => self.concat(v, x) }); }
        r
    }
    /// or of lane-wise disjoint concatenations
    fn lane_or(&mut self, a: T, b: T) -> Option<T> {
        if !(self.is_lanes(a) && (self.is_lanes(b) || self.n(b).op == Op::ZExt) || self.is_lanes(b) && self.n(a).op == Op::ZExt) { return None; }
        let w = self.w(a);
        let mut cuts = std::collections::BTreeSet::new();
        for l in [self.lanes(a), self.lanes(b)] { let mut p = 0; for (lw, _) in l { p += lw; cuts.insert(p); } }
        let mut r: Option<T> = None;
        let mut start = 0u16;
        for p in cuts {
            let (x, y) = (self.extract(a, start, p - start), self.extract(b, start, p - start));
            let v = if self.cv(x) == Some(0) { y } else if self.cv(y) == Some(0) { x } else { return None };
            r = Some(match r { None => v, Some(t) => self.concat(v, t) });
            start = p;
        }
        debug_assert!(start == w);
        r
    }
    fn lane_add(&mut self, a: T, b: T) -> Option<T> {
        if !(self.is_lanes(a) && (self.is_lanes(b) || self.n(b).op == Op::ZExt) || self.is_lanes(b) && self.n(a).op == Op::ZExt) { return None; }
        let w = self.w(a);
        let (la, lb) = (self.lanes(a), self.lanes(b));
        let mut ok = vec![0u8; w as usize + 1]; // number of operands that may be cut at this position
        for l in [&la, &lb] {
            let mut pos = 0u16;
            for (lw, t) in l {
                ok[pos as usize] += 1;
                if self.cv(*t).is_some() { for q in pos + 1..pos + lw { ok[q as usize] += 1; } }
                pos += lw;
            }
        }
        let mut r: Option<T> = None;
        let mut start = 0u16;
        let mut segs = 0;
        for p in 1..=w {
            if p < w && (ok[p as usize] < 2 || !(la.iter().scan(0u16, |s, x| { *s += x.0; Some(*s) }).any(|q| q == p) || lb.iter().scan(0u16, |s, x| { *s += x.0; Some(*s) }).any(|q| q == p))) { continue; }
            let (x, y) = (self.extract(a, start, p - start), self.extract(b, start, p - start));
            if p < w && self.umax[x as usize] + self.umax[y as usize] > mask(p - start) { continue; }
            if p == w && segs == 0 { return None; }
            let v = self.bin(Op::Add, x, y);
            r = Some(match r { None => v, Some(t) => self.concat(v, t) });
            start = p;
            segs += 1;
        }
        r
    }
    fn mul_fits(&self, a: T, k: i128, w: u16) -> bool {
        let h = (mask(w) >> 1) as i128;
        match (self.smin[a as usize].checked_mul(k), self.smax[a as usize].checked_mul(k)) { (Some(x), Some(y)) => x >= -h - 1 && y <= h, _ => false }
    }
    /// or of terms with disjoint zero bits expressed through zext / concat-with-zero
    fn or_concat(&mut self, a: T, b: T) -> Option<T> {
        // a = zext(x) (low bits), b = concat(.., 0_k) with k >= width(x)
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w;
        // find b as (hi ++ 0_k) possibly under zext
        let (hi, k) = match nb.op {
            Op::Concat if self.cv(nb.b) == Some(0) => (nb.a, self.w(nb.b)),
            Op::Const if nb.k != 0 => {
                let k = (128 - self.umax[a as usize].leading_zeros()).max(1) as u16;
                if (nb.k.trailing_zeros() as u16) < k || k >= w { return None; }
                let h = self.konst(nb.k >> k, w - k);
                (h, k)
            }
            Op::ZExt => { let ni = self.n(nb.a); if ni.op == Op::Concat && self.cv(ni.b) == Some(0) { (ni.a, self.w(ni.b)) } else { return None } }
            _ => return None,
        };
        if na.op == Op::Const { return None; }
        if self.umax[a as usize] <= mask(k) {
            let lo = self.extract(a, 0, k);
            let c = self.concat(hi, lo);
            return Some(self.zext(c, w));
        }
        None
    }
    pub fn extract(&mut self, a: T, lo: u16, w: u16) -> T {
        let n = self.n(a);
        if lo == 0 && w == n.w { return a; }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => return self.konst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, n.k as u16 + lo, w),
            Op::Concat => {
                let bw = self.w(n.b);
                if lo >= bw { return self.extract(n.a, lo - bw, w); }
                if lo + w <= bw { return self.extract(n.b, lo, w); }
                let h = self.extract(n.a, 0, lo + w - bw);
                let l = self.extract(n.b, lo, bw - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.konst(0, w); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let e = self.extract(n.a, lo, iw - lo);
                return self.zext(e, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo < iw { let e = self.extract(n.a, lo, iw - lo); return self.sext(e, w); }
                if lo >= iw { let e = self.extract(n.a, iw - 1, 1); return self.sext(e, w); }
            }
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() || self.n(n.b).op == Op::Ite && false {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add if lo == 0 && self.cv(n.b).map_or(false, |k| k & mask(w) == 0) => return self.extract(n.a, 0, w),
            Op::And if self.cv(n.b).is_some() => { let k = (self.cv(n.b).unwrap() >> lo) & mask(w); if k == 0 { return self.konst(0, w); } if k == mask(w) { return self.extract(n.a, lo, w); } }
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, a: T, b: T) -> T {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w + nb.w;
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.konst((x << nb.w) | y, w); }
        if self.cv(a) == Some(0) { return self.zext(b, w); }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 { return self.extract(na.a, nb.k as u16, w); }
        // x[..k] with x itself
        if na.op == Op::Extract && na.a == b && na.k == nb.w as u128 { /* impossible */ }
        if na.op == Op::ZExt { let iw = self.w(na.a); let c = self.concat(na.a, b); let _ = iw; return self.zext(c, w); }
        // concat(concat(p,q), r) with q,r mergeable
        if na.op == Op::Concat { let nq = self.n(na.b); if nq.op == Op::Extract && nb.op == Op::Extract && nq.a == nb.a && nq.k == nb.k + nb.w as u128 { let qr = self.extract(nb.a, nb.k as u16, nq.w + nb.w); return self.concat(na.a, qr); } if nq.op == Op::Const && nb.op == Op::Const { let qr = self.konst((nq.k << nb.w) | nb.k, nq.w + nb.w); return self.concat(na.a, qr); } }
        if nb.op == Op::Concat { let nq = self.n(nb.a); if nq.op == Op::Extract && na.op == Op::Extract && nq.a == na.a && na.k == nq.k + nq.w as u128 { let pq = self.extract(na.a, nq.k as u16, nq.w + na.w); return self.concat(pq, nb.b); } }
        // ite(c, x1, x2) ++ ite(c, y1, y2)
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a { let x = self.concat(na.b, nb.b); let y = self.concat(na.c, nb.c); return self.ite(na.a, x, y); }
        self.mk(Op::Concat, w, a, b, 0, 0)
    }
    pub fn zext(&mut self, a: T, w: u16) -> T {
        let n = self.n(a);
        if n.w == w { return a; }
        debug_assert!(w > n.w);
        match n.op {
            Op::Const => self.konst(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => { let x = self.zext(n.b, w); let y = self.zext(n.c, w); self.ite(n.a, x, y) }
            _ => self.mk(Op::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let n = self.n(a);
        if n.w == w { return a; }
        if self.umax[a as usize] <= mask(n.w) >> 1 { return self.zext(a, w); }
        match n.op {
            Op::Const => self.konst(sext(n.k, n.w) as u128, w),
            Op::SExt => self.sext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => { let x = self.sext(n.b, w); let y = self.sext(n.c, w); self.ite(n.a, x, y) }
            _ => self.mk(Op::SExt, w, a, 0, 0, 0),
        }
    }
    pub fn ite(&mut self, c: T, x: T, y: T) -> T {
        if let Some(k) = self.cv(c) { return if k != 0 { x } else { y }; }
        if x == y { return x; }
        let nc = self.n(c);
        if nc.op == Op::Not { return self.ite(nc.a, y, x); }
        let w = self.w(x);
        if w == 1 {
            match (self.cv(x), self.cv(y)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, y),
                (Some(0), None) => { let n = self.not(c); return self.and1(n, y); }
                (None, Some(0)) => return self.and1(c, x),
                (None, Some(1)) => { let n = self.not(c); return self.or1(n, x); }
                _ => {}
            }
        }
        let nx = self.n(x);
        if matches!(nx.op, Op::SToF | Op::UToF) || matches!(self.n(y).op, Op::SToF | Op::UToF) {
            if let (Some(p), Some(q)) = (self.fint(x), self.fint(y)) { let r = self.ite(c, p.0, q.0); return self.un(Op::SToF, r, w, 0); }
        }
        if nx.op == Op::Ite && nx.a == c { return self.ite(c, nx.b, y); }
        let ny = self.n(y);
        if ny.op == Op::Ite && ny.a == c { return self.ite(c, x, ny.c); }
        self.mk(Op::Ite, w, c, x, y, 0)
    }
    /// A floating-point term that is exactly an integer (never a negative zero): its integer as a 64-bit term, and range.
    fn fint(&mut self, t: T) -> Option<(T, i128, i128)> {
        let n = self.n(t);
        let lim = if n.w == 64 { 1i128 << 53 } else if n.w == 32 { 1i128 << 24 } else { return None };
        match n.op {
            Op::Const => {
                let v = fval(n.k, n.w);
                if v.is_finite() && v == v.trunc() && v.abs() <= lim as f64 && !(v == 0.0 && n.k != 0) { let k = v as i128; let c = self.konst(k as u128, 64); Some((c, k, k)) } else { None }
            }
            Op::SToF => {
                let (lo, hi) = (self.smin[n.a as usize], self.smax[n.a as usize]);
                if lo < -lim || hi > lim || self.w(n.a) > 64 { return None; }
                let x = if self.w(n.a) < 64 { self.sext(n.a, 64) } else { n.a };
                Some((x, lo, hi))
            }
            Op::UToF => {
                let (lo, hi) = (self.umin[n.a as usize], self.umax[n.a as usize]);
                if hi > lim as u128 || self.w(n.a) > 64 { return None; }
                let x = if self.w(n.a) < 64 { self.zext(n.a, 64) } else { n.a };
                Some((x, lo as i128, hi as i128))
            }
            _ => None,
        }
    }
    /// Floating-point operations whose operands and result are integers small enough to be exact, as integer operations.
    fn fexact(&mut self, op: Op, a: T, b: T, aw: u16) -> Option<T> {
        let lim = if aw == 64 { 1i128 << 53 } else if aw == 32 { 1i128 << 24 } else { return None };
        let one = if aw == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 };
        if (op == Op::FDiv || op == Op::FMul) && self.cv(b) == Some(one) && matches!(self.n(a).op, Op::SToF | Op::UToF | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FCvt) { return Some(a); }
        if matches!(op, Op::FLt | Op::FLe | Op::FEq | Op::Eq) {
            // a/c compared with b/c for integers far below the precision: distinct integers stay distinct
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::FDiv && nb.op == Op::FDiv && na.b == nb.b {
                if let Some(c) = self.cv(na.b) {
                    let c = fval(c, aw);
                    if c >= 1.0 && c <= 1e9 {
                        let (x, y) = (self.fint(na.a)?, self.fint(nb.a)?);
                        if [x.1, x.2, y.1, y.2].iter().all(|v| v.abs() <= lim >> 3) { return self.fexact(op, na.a, nb.a, aw); }
                    }
                }
            }
        }
        let ((x, xl, xh), (y, yl, yh)) = (self.fint(a)?, self.fint(b)?);
        Some(match op {
            Op::FLt => self.bin(Op::Slt, x, y),
            Op::FLe => self.bin(Op::Sle, x, y),
            Op::FEq | Op::Eq => self.bin(Op::Eq, x, y),
            Op::FAdd if xl + yl >= -lim && xh + yh <= lim => { let r = self.bin(Op::Add, x, y); self.un(Op::SToF, r, aw, 0) }
            Op::FSub if xl - yh >= -lim && xh - yl <= lim => { let r = self.bin(Op::Sub, x, y); self.un(Op::SToF, r, aw, 0) }
            Op::FMul if (xl >= 0 && yl >= 0) || ((xl > 0 || xh < 0) && (yl > 0 || yh < 0)) => {
                let c = [xl * yl, xl * yh, xh * yl, xh * yh];
                if c.iter().any(|v| v.abs() > lim) { return None; }
                let r = self.bin(Op::Mul, x, y);
                // the range of the product must be visible in the term
                if self.smin[r as usize] < -lim || self.smax[r as usize] > lim { return None; }
                self.un(Op::SToF, r, aw, 0)
            }
            _ => return None,
        })
    }
    pub fn un(&mut self, op: Op, a: T, w: u16, k: u128) -> T {
        if matches!(op, Op::FToS | Op::FToU | Op::FCvt | Op::FNan | Op::FRnd) && matches!(self.n(a).op, Op::SToF | Op::UToF) {
            if let Some((x, lo, hi)) = self.fint(a) {
                match op {
                    Op::FNan => return self.konst(0, 1),
                    Op::FRnd => return a,
                    Op::FCvt if w == 64 => return self.un(Op::SToF, x, 64, 0),
                    Op::FToS | Op::FToU => {
                        let fits = if op == Op::FToU { lo >= 0 && (w >= 64 || hi < 1i128 << w) } else { w >= 64 || (lo >= -(1i128 << (w - 1)) && hi < 1i128 << (w - 1)) };
                        if fits { return if w == 64 { x } else if w < 64 { self.extract(x, 0, w) } else { self.sext(x, w) }; }
                    }
                    _ => {}
                }
            }
        }
        // one form for conversions of small integers: signed, from 64 bits
        if (op == Op::SToF || op == Op::UToF) && self.cv(a).is_none() && (op == Op::UToF || self.w(a) < 64) {
            let aw = self.w(a);
            if op == Op::SToF { let x = self.sext(a, 64); return self.un(Op::SToF, x, w, k); }
            if aw <= 64 && self.umax[a as usize] <= i64::MAX as u128 { let x = if aw < 64 { self.zext(a, 64) } else { a }; return self.un(Op::SToF, x, w, k); }
        }
        if op == Op::FNan && self.fr(a).is_some() { return self.konst(0, 1); }
        if let Some(x) = self.cv(a) { let n = Node { op, w, a, b: 0, c: 0, k }; let v = apply(&n, self.w(a), x, 0, 0, 0); return self.konst(v, w); }
        self.mk(op, w, a, 0, 0, k)
    }
    pub fn fma(&mut self, a: T, b: T, c: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y), Some(z)) = (self.cv(a), self.cv(b), self.cv(c)) { let n = Node { op: Op::FFma, w, a, b, c, k: 0 }; let v = apply(&n, w, x, y, z, w); return self.konst(v, w); }
        self.mk(Op::FFma, w, a, b, c, 0)
    }
    /// number of provably zero low bits
    pub fn tz(&self, t: T) -> u32 {
        let n = self.n(t);
        match n.op {
            Op::Const => if n.k == 0 { n.w as u32 } else { n.k.trailing_zeros() },
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(n.a).min(self.tz(n.b)),
            Op::And => self.tz(n.a).max(self.tz(n.b)),
            Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(n.w as u32),
            Op::Concat => { let b = self.tz(n.b); if b >= self.w(n.b) as u32 { b + self.tz(n.a) } else { b } }
            Op::ZExt | Op::SExt => self.tz(n.a),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }
}
fn merge(a: &std::rc::Rc<Vec<u32>>, b: &std::rc::Rc<Vec<u32>>) -> std::rc::Rc<Vec<u32>> {
    if std::rc::Rc::ptr_eq(a, b) || b.is_empty() { return a.clone(); }
    if a.is_empty() { return b.clone(); }
    let mut v = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) { v.push(a[i]); i += 1; }
        else if i >= a.len() || b[j] < a[i] { v.push(b[j]); j += 1; }
        else { v.push(a[i]); i += 1; j += 1; }
    }
    if v.len() == a.len() { return a.clone(); }
    if v.len() == b.len() { return b.clone(); }
    std::rc::Rc::new(v)
}
pub fn arity(op: Op) -> u8 {
    match op {
        Op::Const | Op::Var => 0,
        Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::FSqrt | Op::FRnd | Op::FNan | Op::FToS | Op::FToU | Op::SToF | Op::UToF | Op::FCvt => 1,
        Op::Ite | Op::FFma => 3,
        _ => 2,
    }
}

/// A total assignment of the input variables, with memoised term evaluation.
pub struct Model { pub vals: HashMap<u32, u128>, memo: RefCell<HashMap<T, u128, std::hash::BuildHasherDefault<Fx>>> }
impl Model {
    pub fn new(vals: HashMap<u32, u128>) -> Self { Model { vals, memo: Default::default() } }
    pub fn eval(&self, ar: &Arena, t: T) -> u128 {
        let n = &ar.nodes[t as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return self.vals.get(&(n.k as u32)).copied().unwrap_or(0),
            _ => {}
        }
        if let Some(v) = self.memo.borrow().get(&t) { return *v; }
        // explicit stack: terms can be deep
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            let n = ar.nodes[x as usize];
            let get = |y: T| -> Option<u128> {
                let m = &ar.nodes[y as usize];
                match m.op { Op::Const => Some(m.k), Op::Var => Some(self.vals.get(&(m.k as u32)).copied().unwrap_or(0)), _ => self.memo.borrow().get(&y).copied() }
            };
            let k = arity(n.op);
            let mut ready = true;
            if n.op == Op::Ite {
                // only the taken side is needed
                match get(n.a) {
                    None => { stack.push(n.a); continue; }
                    Some(c) => {
                        let s = if c != 0 { n.b } else { n.c };
                        match get(s) { None => { stack.push(s); continue; } Some(v) => { self.memo.borrow_mut().insert(x, v); stack.pop(); continue; } }
                    }
                }
            }
            let mut v = [0u128; 3];
            for (i, y) in [n.a, n.b, n.c].iter().take(k as usize).enumerate() {
                match get(*y) { Some(z) => v[i] = z, None => { stack.push(*y); ready = false; } }
            }
            if !ready { continue; }
            let aw = ar.nodes[n.a as usize].w;
            let bw = if k >= 2 { ar.nodes[n.b as usize].w } else { 0 };
            let r = apply(&n, aw, v[0], v[1], v[2], bw);
            self.memo.borrow_mut().insert(x, r);
            stack.pop();
        }
        let r = *self.memo.borrow().get(&t).unwrap();
        r
    }
}
