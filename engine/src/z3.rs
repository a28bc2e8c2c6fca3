//! Z3 binding: term translation, incremental path solver, one-shot fallback solver.
#![allow(non_snake_case, non_camel_case_types)]
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_fma(c: P, r: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn onerr(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().into_owned() };
    eprintln!("z3 error {e}: {m}");
}

pub enum R { Sat(HashMap<u32, u128>), Unsat, Unknown }

pub struct Z3 {
    c: P,
    bv: HashMap<T, P>,
    fp: HashMap<T, P>,
    inc: P,
    inc_stack: Vec<T>,
    lia: P,
    lia_stack: Vec<T>,
    li: HashMap<T, P>,
    ls: HashMap<T, P>,
    ufs: HashMap<T, std::rc::Rc<Vec<T>>>,
    ufd: HashMap<(u8, u16, u16, u16, u128), P>,
    pub uf_spurious: u64,
    pub t_lia: u32,
    pub lia_queries: u64,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub guessed: u64,
    rng: u64,
    pub cache_hits: u64,
    pub fallback: u64,
    pub time: f64,
    pub slowest: f64,
    cache: HashMap<Vec<T>, Option<std::rc::Rc<HashMap<u32, u128>>>>,
    pub t_inc: u32,
    pub t_full: u32,
    pub dump: Option<String>,
}

fn cs(s: &str) -> CString { CString::new(s).unwrap() }

impl Z3 {
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
    pub fn new(t_inc: u32, t_full: u32) -> Z3 {
        unsafe {
            Z3_global_param_set(cs("memory_max_size").as_ptr(), cs("6000").as_ptr());
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, onerr);
            let mut z = Z3 { c, bv: HashMap::new(), fp: HashMap::new(), inc: std::ptr::null_mut(), inc_stack: vec![], lia: std::ptr::null_mut(), lia_stack: vec![], li: HashMap::new(), ls: HashMap::new(), ufs: HashMap::new(), ufd: HashMap::new(), uf_spurious: 0, t_lia: 4000, lia_queries: 0, queries: 0, unsat: 0, sat: 0, unknown: 0, guessed: 0, rng: 0x9e3779b97f4a7c15, cache_hits: 0, fallback: 0, time: 0.0, slowest: 0.0, cache: HashMap::new(), t_inc, t_full, dump: None };
            z.reset_inc();
            z.reset_lia();
            z
        }
    }
    unsafe fn solver(&self, logic: Option<&str>, timeout: u32) -> P {
        let s = match logic { Some(l) => Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, cs(l).as_ptr())), None => Z3_mk_solver(self.c) };
        Z3_solver_inc_ref(self.c, s);
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, cs("timeout").as_ptr()), timeout);
        Z3_solver_set_params(self.c, s, p);
        s
    }
    unsafe fn reset_inc(&mut self) {
        if !self.inc.is_null() { Z3_solver_dec_ref(self.c, self.inc); }
        self.inc = self.solver(Some("QF_BV"), self.t_inc);
        self.inc_stack.clear();
    }
    unsafe fn reset_lia(&mut self) {
        if !self.lia.is_null() { Z3_solver_dec_ref(self.c, self.lia); }
        let s = Z3_mk_simple_solver(self.c);
        Z3_solver_inc_ref(self.c, s);
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, cs("timeout").as_ptr()), self.t_lia);
        Z3_solver_set_params(self.c, s, p);
        self.lia = s;
        self.lia_stack.clear();
    }
    /// Is the operator exactly representable in linear integer arithmetic?  The others become uninterpreted.
    fn lin_op(ar: &Arena, t: T) -> bool {
        let n = ar.n(t);
        match n.op {
            Op::Const | Op::Var | Op::Add | Op::Sub | Op::Ite | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::ZExt | Op::SExt | Op::Not | Op::Concat | Op::Extract => true,
            Op::And | Op::Or | Op::Xor => n.w == 1,
            Op::Mul => n.w > 1 && ar.cv(n.b).map_or(false, |k| ar.umax[n.a as usize].checked_mul(k).map_or(false, |h| h <= mask(n.w)) || Self::smul(ar, t)),
            Op::UDiv | Op::URem => ar.cv(n.b).map_or(false, |k| k > 0),
            Op::SDiv | Op::SRem => n.w <= 100 && ar.cv(n.b).map_or(false, |k| k > 0 && k <= mask(n.w) >> 1),
            _ => false,
        }
    }
    fn smul(ar: &Arena, t: T) -> bool {
        let n = ar.n(t);
        if n.w > 64 { return false; }
        let Some(k) = ar.cv(n.b) else { return false };
        let k = sext(k, n.w);
        let h = (mask(n.w) >> 1) as i128;
        match (ar.smin[n.a as usize].checked_mul(k), ar.smax[n.a as usize].checked_mul(k)) { (Some(x), Some(y)) => x.min(y) >= -h - 1 && x.max(y) <= h, _ => false }
    }
    /// the signed sum/difference of the operands does not overflow
    fn sfits(ar: &Arena, n: &Node) -> bool {
        if n.w > 64 { return false; }
        let h = (mask(n.w) >> 1) as i128;
        let (a, b) = ((ar.smin[n.a as usize], ar.smax[n.a as usize]), (ar.smin[n.b as usize], ar.smax[n.b as usize]));
        let (lo, hi) = if n.op == Op::Add { (a.0 + b.0, a.1 + b.1) } else { (a.0 - b.1, a.1 - b.0) };
        lo >= -h - 1 && hi <= h
    }
    /// Uninterpreted subterms of a term, as it is translated to integers.
    fn ufsub(&mut self, ar: &Arena, t0: T) -> std::rc::Rc<Vec<T>> {
        if let Some(r) = self.ufs.get(&t0) { return r.clone(); }
        let mut stack = vec![t0];
        while let Some(&t) = stack.last() {
            if self.ufs.contains_key(&t) { stack.pop(); continue; }
            let n = ar.n(t);
            let k = arity(n.op) as usize;
            let ops = [n.a, n.b, n.c];
            let mut ready = true;
            for y in ops.iter().take(k) { if !self.ufs.contains_key(y) { stack.push(*y); ready = false; } }
            if !ready { continue; }
            let mut v: Vec<T> = vec![];
            for y in ops.iter().take(k) { v.extend(self.ufs[y].iter()); }
            if !Self::lin_op(ar, t) { v.push(t); }
            v.sort_unstable(); v.dedup();
            self.ufs.insert(t, std::rc::Rc::new(v));
            stack.pop();
        }
        self.ufs[&t0].clone()
    }
    unsafe fn inum(&self, v: u128) -> P { let s = self.keep(Z3_mk_int_sort(self.c)); self.keep(Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), s)) }
    unsafe fn pow2(&self, w: u16) -> P { let s = self.keep(Z3_mk_int_sort(self.c)); let t = if w >= 128 { "340282366920938463463374607431768211456".to_string() } else { (1u128 << w).to_string() }; self.keep(Z3_mk_numeral(self.c, cs(&t).as_ptr(), s)) }
    fn tri(&mut self, ar: &Arena, t0: T) -> P {
        if let Some(p) = self.li.get(&t0) { return *p; }
        let mut stack = vec![t0];
        while let Some(&t) = stack.last() {
            if self.li.contains_key(&t) { stack.pop(); continue; }
            let n = ar.n(t);
            let k = arity(n.op);
            let mut ready = true;
            for y in [n.a, n.b, n.c].iter().take(k as usize) { if !self.li.contains_key(y) { stack.push(*y); ready = false; } }
            if !ready { continue; }
            let r = unsafe { let r = self.tri1(ar, t); self.keep(r) };
            self.li.insert(t, r);
            stack.pop();
        }
        self.li[&t0]
    }
    unsafe fn isub(&self, a: P, b: P) -> P { let v = [a, b]; self.keep(Z3_mk_sub(self.c, 2, v.as_ptr())) }
    unsafe fn iadd(&self, a: P, b: P) -> P { let v = [a, b]; self.keep(Z3_mk_add(self.c, 2, v.as_ptr())) }
    unsafe fn b2i(&self, ar: &Arena, t: T) -> P { let p = self.li[&t]; if ar.w(t) == 1 { let (o, z) = (self.inum(1), self.inum(0)); self.keep(Z3_mk_ite(self.c, p, o, z)) } else { p } }
    /// signed value of a term
    unsafe fn sgn(&mut self, ar: &Arena, t: T) -> P {
        if ar.umax[t as usize] <= mask(ar.w(t)) >> 1 { return self.b2i(ar, t); }
        self.sgn0(ar, t)
    }
    unsafe fn sgn0(&mut self, ar: &Arena, t: T) -> P {
        if let Some(p) = self.ls.get(&t) { return *p; }
        let n = ar.n(t);
        let w = n.w;
        let c = self.c;
        let r = match n.op {
            Op::Const if w <= 100 => { let s = self.keep(Z3_mk_int_sort(c)); self.keep(Z3_mk_numeral(c, cs(&sext(n.k, w).to_string()).as_ptr(), s)) }
            Op::Add if w > 1 && Self::sfits(ar, &n) => { let (a, b) = (self.sgn(ar, n.a), self.sgn(ar, n.b)); self.iadd(a, b) }
            Op::Sub if w > 1 && Self::sfits(ar, &n) => { let (a, b) = (self.sgn(ar, n.a), self.sgn(ar, n.b)); self.isub(a, b) }
            Op::Mul if w > 1 && ar.cv(n.b).is_some() && Self::smul(ar, t) => { let (a, b) = (self.sgn(ar, n.a), self.sgn(ar, n.b)); let v = [a, b]; self.keep(Z3_mk_mul(c, 2, v.as_ptr())) }
            Op::SExt if ar.w(n.a) > 1 => self.sgn(ar, n.a),
            Op::Ite if w > 1 => { let k = self.li[&n.a]; let (a, b) = (self.sgn(ar, n.b), self.sgn(ar, n.c)); self.keep(Z3_mk_ite(c, k, a, b)) }
            Op::SDiv | Op::SRem if Self::lin_op(ar, t) => {
                let a = self.sgn(ar, n.a);
                let k = self.inum(ar.cv(n.b).unwrap());
                let z = self.inum(0);
                let neg = self.isub(z, a);
                let (p, q) = if n.op == Op::SDiv { (self.keep(Z3_mk_div(c, a, k)), self.keep(Z3_mk_div(c, neg, k))) } else { (self.keep(Z3_mk_mod(c, a, k)), self.keep(Z3_mk_mod(c, neg, k))) };
                let q = self.isub(z, q);
                let ge = self.keep(Z3_mk_le(c, z, a));
                self.keep(Z3_mk_ite(c, ge, p, q))
            }
            Op::Extract if w > 1 && n.k as u16 + w == ar.w(n.a) => { let a = self.sgn(ar, n.a); let p = self.pow2(n.k as u16); self.keep(Z3_mk_div(c, a, p)) }
            Op::Extract if w > 1 && w < 100 && ar.w(n.a) <= 100 && n.k == 0 && ar.smin[n.a as usize] >= -((mask(w) >> 1) as i128) - 1 && ar.smax[n.a as usize] <= (mask(w) >> 1) as i128 => self.sgn(ar, n.a),
            _ => { let a = self.b2i(ar, t); let h = self.pow2(w - 1); let lt = self.keep(Z3_mk_lt(c, a, h)); let s = self.isub(a, self.pow2(w)); self.keep(Z3_mk_ite(c, lt, a, s)) }
        };
        self.ls.insert(t, r);
        r
    }
    /// unsigned representation of a signed integer expression
    unsafe fn unsg(&mut self, ar: &Arena, t: T) -> P {
        let s = self.sgn0(ar, t);
        if ar.smin[t as usize] >= 0 { return s; }
        let w = ar.w(t);
        let z = self.inum(0);
        let a = self.iadd(s, self.pow2(w));
        if ar.smax[t as usize] < 0 { return a; }
        let ge = self.keep(Z3_mk_le(self.c, z, s));
        Z3_mk_ite(self.c, ge, s, a)
    }
    unsafe fn tri1(&mut self, ar: &Arena, t: T) -> P {
        let n = ar.n(t);
        let c = self.c;
        let b1 = n.w == 1;
        let m = mask(n.w);
        let li: [P; 3] = { let k = arity(n.op); let f = |i: u8, y: T| if i < k { self.li[&y] } else { std::ptr::null_mut() }; [f(0, n.a), f(1, n.b), f(2, n.c)] };
        let g = |y: T| if y == n.a { li[0] } else if y == n.b { li[1] } else { li[2] };
        let (ua, ub) = (ar.umax[n.a as usize], ar.umax[n.b as usize]);
        let (la, lb) = (ar.umin[n.a as usize], ar.umin[n.b as usize]);
        if !Self::lin_op(ar, t) {
            let k = arity(n.op) as usize;
            let ops = [n.a, n.b, n.c];
            let ww = |i: usize| if i < k { ar.w(ops[i]) } else { 0 };
            let sort = |w: u16| self.keep(if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_int_sort(c) });
            let key = (n.op as u8, n.w, ww(0), ww(1), n.k);
            let d = match self.ufd.get(&key) { Some(d) => *d, None => {
                let dom: Vec<P> = (0..k).map(|i| sort(ww(i))).collect();
                let d = self.keep(Z3_mk_func_decl(c, Z3_mk_string_symbol(c, cs(&format!("f{}", self.ufd.len())).as_ptr()), k as c_uint, dom.as_ptr(), sort(n.w)));
                self.ufd.insert(key, d);
                d
            } };
            let args: Vec<P> = (0..k).map(|i| self.li[&ops[i]]).collect();
            return Z3_mk_app(c, d, k as c_uint, args.as_ptr());
        }
        match n.op {
            Op::Const => if b1 { if n.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.inum(n.k) },
            Op::Var => { let s = self.keep(if b1 { Z3_mk_bool_sort(c) } else { Z3_mk_int_sort(c) }); Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), s) }
            Op::Not => if b1 { Z3_mk_not(c, g(n.a)) } else { let k = self.inum(m); self.isub(k, g(n.a)) },
            Op::And | Op::Or | Op::Xor => { let v = [g(n.a), g(n.b)]; match n.op { Op::And => Z3_mk_and(c, 2, v.as_ptr()), Op::Or => Z3_mk_or(c, 2, v.as_ptr()), _ => Z3_mk_xor(c, v[0], v[1]) } }
            Op::Add | Op::Sub if b1 => Z3_mk_xor(c, g(n.a), g(n.b)),
            Op::Add => {
                let (x, y) = (g(n.a), g(n.b));
                if ua.checked_add(ub).map_or(false, |h| h <= m) { return self.iadd(x, y); }
                if Self::sfits(ar, &n) { return self.unsg(ar, t); }
                if let Some(k) = ar.cv(n.b) { if k > m >> 1 {
                    let neg = (m - k).wrapping_add(1) & m;
                    let kk = self.inum(neg);
                    let d = self.isub(x, kk);
                    if la >= neg { return d; }
                    let ge = self.keep(Z3_mk_le(c, kk, x));
                    let w = self.iadd(d, self.pow2(n.w));
                    return Z3_mk_ite(c, ge, d, w);
                } }
                let s = self.iadd(x, y);
                let p = self.pow2(n.w);
                let lt = self.keep(Z3_mk_lt(c, s, p));
                let w = self.isub(s, p);
                Z3_mk_ite(c, lt, s, w)
            }
            Op::Sub => { let (x, y) = (g(n.a), g(n.b)); let d = self.isub(x, y); if la >= ub { return d; } if Self::sfits(ar, &n) { return self.unsg(ar, t); } let ge = self.keep(Z3_mk_le(c, y, x)); let w = self.iadd(d, self.pow2(n.w)); let _ = lb; Z3_mk_ite(c, ge, d, w) }
            Op::Mul if !ua.checked_mul(ub).map_or(false, |h| h <= m) => self.unsg(ar, t),
            Op::SDiv | Op::SRem => self.unsg(ar, t),
            Op::Mul => { let v = [g(n.a), g(n.b)]; Z3_mk_mul(c, 2, v.as_ptr()) }
            Op::UDiv => Z3_mk_div(c, g(n.a), g(n.b)),
            Op::URem => Z3_mk_mod(c, g(n.a), g(n.b)),
            Op::Ite => Z3_mk_ite(c, g(n.a), g(n.b), g(n.c)),
            Op::Eq => Z3_mk_eq(c, g(n.a), g(n.b)),
            Op::Ult => { let (x, y) = (self.b2i(ar, n.a), self.b2i(ar, n.b)); Z3_mk_lt(c, x, y) }
            Op::Ule => { let (x, y) = (self.b2i(ar, n.a), self.b2i(ar, n.b)); Z3_mk_le(c, x, y) }
            Op::Slt => { let (x, y) = (self.sgn(ar, n.a), self.sgn(ar, n.b)); Z3_mk_lt(c, x, y) }
            Op::Sle => { let (x, y) = (self.sgn(ar, n.a), self.sgn(ar, n.b)); Z3_mk_le(c, x, y) }
            Op::ZExt => self.b2i(ar, n.a),
            Op::SExt if ar.w(n.a) > 1 => self.unsg(ar, t),
            Op::SExt => { let iw = ar.w(n.a); let a = self.b2i(ar, n.a); let h = self.pow2(iw - 1); let lt = self.keep(Z3_mk_lt(c, a, h)); let d = self.inum(mask(n.w) - mask(iw)); let s = self.iadd(a, d); Z3_mk_ite(c, lt, a, s) }
            Op::Concat => { let (x, y) = (self.b2i(ar, n.a), self.b2i(ar, n.b)); let p = self.pow2(ar.w(n.b)); let v = [x, p]; let k = self.keep(Z3_mk_mul(c, 2, v.as_ptr())); self.iadd(k, y) }
            Op::Extract => {
                let x = self.b2i(ar, n.a);
                let q = if n.k > 0 { let p = self.pow2(n.k as u16); self.keep(Z3_mk_div(c, x, p)) } else { x };
                let r = if (ua >> n.k) <= m { q } else { let p = self.pow2(n.w); self.keep(Z3_mk_mod(c, q, p)) };
                if b1 { let o = self.inum(1); Z3_mk_eq(c, r, o) } else { r }
            }
            _ => unreachable!(),
        }
    }
    unsafe fn lia_assert(&mut self, ar: &Arena, t: T) {
        for v in ar.vars[t as usize].iter() {
            let w = ar.var_width[*v as usize];
            if w == 1 { continue; }
            let s = self.keep(Z3_mk_int_sort(self.c));
            let x = self.keep(Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, *v as c_int), s));
            let z = self.inum(0);
            let p = self.pow2(w);
            let a = self.keep(Z3_mk_le(self.c, z, x));
            let b = self.keep(Z3_mk_lt(self.c, x, p));
            Z3_solver_assert(self.c, self.lia, a);
            Z3_solver_assert(self.c, self.lia, b);
        }
        let a = self.tri(ar, t);
        for u in self.ufsub(ar, t).iter() {
            let w = ar.w(*u);
            if w == 1 { continue; }
            let x = self.tri(ar, *u);
            let (z, p) = (self.inum(ar.umin[*u as usize]), self.inum(ar.umax[*u as usize]));
            let l = self.keep(Z3_mk_le(self.c, z, x));
            let h = self.keep(Z3_mk_le(self.c, x, p));
            Z3_solver_assert(self.c, self.lia, l);
            Z3_solver_assert(self.c, self.lia, h);
        }
        Z3_solver_assert(self.c, self.lia, a);
    }
    unsafe fn keep(&self, a: P) -> P { Z3_inc_ref(self.c, a); a }
    unsafe fn num(&self, v: u128, w: u16) -> P {
        let s = self.keep(Z3_mk_bv_sort(self.c, w as u32));
        if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.c, v as u64, s) } else { Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), s) }
    }
    /// FP view of a term.
    unsafe fn fpv(&mut self, ar: &Arena, t: T) -> P {
        if let Some(p) = self.fp.get(&t) { return *p; }
        let n = ar.n(t);
        let c = self.c;
        let sort = self.keep(if n.w == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) });
        let rne = self.keep(Z3_mk_fpa_rne(c));
        let r = match n.op {
            Op::FAdd => { let (a, b) = (self.fpv(ar, n.a), self.fpv(ar, n.b)); Z3_mk_fpa_add(c, rne, a, b) }
            Op::FSub => { let (a, b) = (self.fpv(ar, n.a), self.fpv(ar, n.b)); Z3_mk_fpa_sub(c, rne, a, b) }
            Op::FMul => { let (a, b) = (self.fpv(ar, n.a), self.fpv(ar, n.b)); Z3_mk_fpa_mul(c, rne, a, b) }
            Op::FDiv => { let (a, b) = (self.fpv(ar, n.a), self.fpv(ar, n.b)); Z3_mk_fpa_div(c, rne, a, b) }
            Op::FFma => { let (a, b, d) = (self.fpv(ar, n.a), self.fpv(ar, n.b), self.fpv(ar, n.c)); Z3_mk_fpa_fma(c, rne, a, b, d) }
            Op::FSqrt => { let a = self.fpv(ar, n.a); Z3_mk_fpa_sqrt(c, rne, a) }
            Op::FRnd => { let a = self.fpv(ar, n.a); let rm = self.keep(match n.k { 0 => Z3_mk_fpa_rtn(c), 1 => Z3_mk_fpa_rtp(c), 2 => Z3_mk_fpa_rtz(c), 3 => Z3_mk_fpa_rne(c), _ => Z3_mk_fpa_rna(c) }); Z3_mk_fpa_round_to_integral(c, rm, a) }
            Op::FCvt => { let a = self.fpv(ar, n.a); Z3_mk_fpa_to_fp_float(c, rne, a, sort) }
            Op::SToF => { let a = self.bvv(ar, n.a); let (lo, hi, w) = (ar.smin[n.a as usize], ar.smax[n.a as usize], ar.w(n.a)); let mut k = 2u16; while k < w && (lo < -(1i128 << (k - 1)) || hi >= 1i128 << (k - 1)) { k += 1; } let a = if k < w { self.keep(Z3_mk_extract(c, k as u32 - 1, 0, a)) } else { a }; Z3_mk_fpa_to_fp_signed(c, rne, a, sort) }
            Op::UToF => { let a = self.bvv(ar, n.a); let (hi, w) = (ar.umax[n.a as usize], ar.w(n.a)); let mut k = 2u16; while k < w && hi >= 1u128 << k { k += 1; } let a = if k < w { self.keep(Z3_mk_extract(c, k as u32 - 1, 0, a)) } else { a }; Z3_mk_fpa_to_fp_unsigned(c, rne, a, sort) }
            Op::Ite if ar.fp[n.b as usize] || ar.fp[n.c as usize] => { let k = self.tr(ar, n.a); let (a, b) = (self.fpv(ar, n.b), self.fpv(ar, n.c)); Z3_mk_ite(c, k, a, b) }
            _ => { let a = self.bvv(ar, t); Z3_mk_fpa_to_fp_bv(c, a, sort) }
        };
        let r = self.keep(r);
        self.fp.insert(t, r);
        r
    }
    /// Bit-vector view (width-1 terms converted from Bool).
    unsafe fn bvv(&mut self, ar: &Arena, t: T) -> P {
        let p = self.tr(ar, t);
        if ar.w(t) == 1 { let o = self.num(1, 1); self.keep(o); let z = self.num(0, 1); self.keep(z); self.keep(Z3_mk_ite(self.c, p, o, z)) } else { p }
    }
    /// Translation: width-1 terms become Bool, others bit-vectors.
    pub fn tr(&mut self, ar: &Arena, t0: T) -> P {
        if let Some(p) = self.bv.get(&t0) { return *p; }
        // explicit post-order to keep native recursion shallow
        let mut stack = vec![t0];
        while let Some(&t) = stack.last() {
            if self.bv.contains_key(&t) { stack.pop(); continue; }
            let n = ar.n(t);
            let k = arity(n.op);
            let mut ready = true;
            for y in [n.a, n.b, n.c].iter().take(k as usize) { if !self.bv.contains_key(y) { stack.push(*y); ready = false; } }
            if !ready { continue; }
            let r = unsafe { self.tr1(ar, t) };
            self.bv.insert(t, r);
            stack.pop();
        }
        self.bv[&t0]
    }
    unsafe fn tr1(&mut self, ar: &Arena, t: T) -> P {
        let n = ar.n(t);
        let c = self.c;
        let b1 = n.w == 1;
        let opw = if arity(n.op) >= 1 { ar.w(n.a) } else { 0 };
        let r = match n.op {
            Op::Const => if b1 { if n.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(n.k, n.w) },
            Op::Var => { let s = self.keep(if b1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, n.w as u32) }); Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), s) }
            Op::Not => { let a = self.bv[&n.a]; if b1 { Z3_mk_not(c, a) } else { Z3_mk_bvnot(c, a) } }
            Op::And | Op::Or | Op::Xor if b1 => { let v = [self.bv[&n.a], self.bv[&n.b]]; match n.op { Op::And => Z3_mk_and(c, 2, v.as_ptr()), Op::Or => Z3_mk_or(c, 2, v.as_ptr()), _ => Z3_mk_xor(c, v[0], v[1]) } }
            Op::Add | Op::Sub if b1 => Z3_mk_xor(c, self.bv[&n.a], self.bv[&n.b]),
            Op::Mul if b1 => { let v = [self.bv[&n.a], self.bv[&n.b]]; Z3_mk_and(c, 2, v.as_ptr()) }
            Op::Ite => { let k = self.bv[&n.a]; Z3_mk_ite(c, k, self.bv[&n.b], self.bv[&n.c]) }
            Op::Eq => Z3_mk_eq(c, self.bv[&n.a], self.bv[&n.b]),
            Op::Extract => { let a = self.bvv(ar, n.a); let e = Z3_mk_extract(c, (n.k as u32) + n.w as u32 - 1, n.k as u32, a); if b1 { self.keep(e); let o = self.num(1, 1); self.keep(o); Z3_mk_eq(c, e, o) } else { e } }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FFma | Op::FRnd | Op::FCvt | Op::SToF | Op::UToF => { let f = self.fpv(ar, t); Z3_mk_fpa_to_ieee_bv(c, f) }
            Op::FLt => { let (a, b) = (self.fpv(ar, n.a), self.fpv(ar, n.b)); Z3_mk_fpa_lt(c, a, b) }
            Op::FLe => { let (a, b) = (self.fpv(ar, n.a), self.fpv(ar, n.b)); Z3_mk_fpa_leq(c, a, b) }
            Op::FEq => { let (a, b) = (self.fpv(ar, n.a), self.fpv(ar, n.b)); Z3_mk_fpa_eq(c, a, b) }
            Op::FNan => { let a = self.fpv(ar, n.a); Z3_mk_fpa_is_nan(c, a) }
            Op::FToS => { let a = self.fpv(ar, n.a); let rm = self.keep(Z3_mk_fpa_rtz(c)); Z3_mk_fpa_to_sbv(c, rm, a, n.w as u32) }
            Op::FToU => { let a = self.fpv(ar, n.a); let rm = self.keep(Z3_mk_fpa_rtz(c)); Z3_mk_fpa_to_ubv(c, rm, a, n.w as u32) }
            _ => {
                let a = self.bvv(ar, n.a);
                let _ = opw;
                match n.op {
                    Op::ZExt => Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as u32, a),
                    Op::SExt => Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as u32, a),
                    _ => {
                        let b = self.bvv(ar, n.b);
                        match n.op {
                            Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::Concat => Z3_mk_concat(c, a, b),
                            Op::Ult => Z3_mk_bvult(c, a, b), Op::Ule => Z3_mk_bvule(c, a, b), Op::Slt => Z3_mk_bvslt(c, a, b), Op::Sle => Z3_mk_bvsle(c, a, b),
                            _ => unreachable!("tr {:?}", n),
                        }
                    }
                }
            }
        };
        self.keep(r)
    }
    unsafe fn model(&mut self, ar: &Arena, s: P, vars: &[u32], lia: bool) -> HashMap<u32, u128> {
        let c = self.c;
        let m = Z3_solver_get_model(c, s);
        Z3_model_inc_ref(c, m);
        let mut out = HashMap::new();
        for v in vars {
            let w = ar.var_width[*v as usize];
            let sort = self.keep(if w == 1 { Z3_mk_bool_sort(c) } else if lia { Z3_mk_int_sort(c) } else { Z3_mk_bv_sort(c, w as u32) });
            let x = self.keep(Z3_mk_const(c, Z3_mk_int_symbol(c, *v as c_int), sort));
            let mut r: P = std::ptr::null_mut();
            if Z3_model_eval(c, m, x, true, &mut r) {
                Z3_inc_ref(c, r);
                let val = if w == 1 { (Z3_get_bool_value(c, r) == 1) as u128 } else {
                    let mut u = 0u64;
                    if w <= 64 && Z3_get_numeral_uint64(c, r, &mut u) { u as u128 } else { CStr::from_ptr(Z3_get_numeral_string(c, r)).to_str().unwrap().parse::<u128>().unwrap_or(0) }
                };
                out.insert(*v, val);
            }
        }
        Z3_model_dec_ref(c, m);
        out
    }
    /// Local search for a model near one that satisfies the path condition; every candidate is evaluated on the real formulas.
    fn guess(&mut self, ar: &Arena, slice: &[T], extra: T, vars: &[u32], hint: &Model) -> Option<HashMap<u32, u128>> {
        if vars.is_empty() { return None; }
        let mut vs: Vec<(u32, u16)> = vars.iter().map(|v| (*v, ar.var_width[*v as usize])).collect();
        vs.sort_unstable();
        let mut rnd = |n: u64| { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; (self.rng >> 11) % n };
        let base: HashMap<u32, u128> = vs.iter().map(|(v, _)| (*v, hint.vals.get(v).copied().unwrap_or(0))).collect();
        for round in 0..120u64 {
            let mut m = base.clone();
            let k = 1 + rnd(vs.len() as u64) * (round % 3 > 0) as u64;
            for _ in 0..k {
                let (v, w) = vs[rnd(vs.len() as u64) as usize];
                let mask = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                let old = m[&v];
                let r = ((rnd(1 << 50) as u128) << 50) ^ rnd(1 << 50) as u128 ^ ((rnd(1 << 50) as u128) << 100);
                let x = match rnd(7) { 0 => rnd(4) as u128, 1 => old + 1, 2 => old.wrapping_sub(1), 3 => 1u128 << rnd(w.min(127) as u64 + 1).min(w as u64 - 1), 4 => old ^ (1u128 << rnd(w.min(127) as u64)), 5 => r & (mask >> rnd(w.min(100) as u64)), _ => r };
                let (x, max) = (x & mask, ar.var_max[v as usize]);
                m.insert(v, if x > max { x % (max + 1) } else { x });
            }
            let md = Model::new(m);
            if md.eval(ar, extra) != 0 && slice.iter().all(|t| md.eval(ar, *t) != 0) { return Some(md.vals); }
        }
        None
    }
    /// Is `pc /\ extra` satisfiable?  `pc` is sliced to the constraints sharing variables with `extra`.
    /// The returned model covers the sliced variables only.
    pub fn check(&mut self, ar: &Arena, pc: &[T], extra: T, hint: &Model) -> R {
        if ar.cv(extra) == Some(0) { return R::Unsat; }
        let mut vars: std::collections::HashSet<u32> = ar.vars[extra as usize].iter().copied().collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, p) in pc.iter().enumerate() {
                if used[i] { continue; }
                let vs = &ar.vars[*p as usize];
                if vs.iter().any(|v| vars.contains(v)) { used[i] = true; for v in vs.iter() { if vars.insert(*v) { ch = true; } } }
            }
            if !ch { break; }
        }
        let mut slice: Vec<T> = pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, p)| *p).collect();
        let mut key = slice.clone();
        key.push(extra);
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) { self.cache_hits += 1; return match r { Some(m) => R::Sat((**m).clone()), None => R::Unsat }; }
        let t0 = Instant::now();
        self.queries += 1;
        let vlist: Vec<u32> = vars.into_iter().collect();
        let fp = ar.fp[extra as usize] || slice.iter().any(|t| ar.fp[*t as usize]);
        let mut res = R::Unknown;
        unsafe {
            if self.t_lia > 0 {
                let exact = self.ufsub(ar, extra).is_empty() && slice.iter().all(|t| self.ufsub(ar, *t).is_empty());
                self.lia_queries += 1;
                let common = self.lia_stack.iter().zip(slice.iter()).take_while(|(a, b)| a == b).count();
                if self.lia_stack.len() > common { let n = self.lia_stack.len() - common; Z3_solver_pop(self.c, self.lia, n as u32); self.lia_stack.truncate(common); }
                for t in slice[common..].iter() { Z3_solver_push(self.c, self.lia); self.lia_assert(ar, *t); self.lia_stack.push(*t); }
                Z3_solver_push(self.c, self.lia);
                self.lia_assert(ar, extra);
                match Z3_solver_check(self.c, self.lia) { 
                    1 => {
                        let m = self.model(ar, self.lia, &vlist, true);
                        // uninterpreted operators: the candidate counts only if it satisfies the real formulas
                        let good = exact || { let md = Model::new(m.clone()); md.eval(ar, extra) != 0 && slice.iter().all(|t| md.eval(ar, *t) != 0) };
                        if good { res = R::Sat(m); } else { self.uf_spurious += 1; }
                        Z3_solver_pop(self.c, self.lia, 1);
                    }
                    -1 => { res = R::Unsat; Z3_solver_pop(self.c, self.lia, 1); }
                    _ => self.reset_lia(),
                }
            }
            if let (R::Unknown, true) = (&res, !fp && self.t_inc > 0) {
                let common = self.inc_stack.iter().zip(slice.iter()).take_while(|(a, b)| a == b).count();
                if self.inc_stack.len() > common { let n = self.inc_stack.len() - common; Z3_solver_pop(self.c, self.inc, n as u32); self.inc_stack.truncate(common); }
                for t in slice[common..].iter() { let a = self.tr(ar, *t); Z3_solver_push(self.c, self.inc); Z3_solver_assert(self.c, self.inc, a); self.inc_stack.push(*t); }
                let a = self.tr(ar, extra);
                Z3_solver_push(self.c, self.inc);
                Z3_solver_assert(self.c, self.inc, a);
                match Z3_solver_check(self.c, self.inc) { 1 => res = R::Sat(self.model(ar, self.inc, &vlist, false)), -1 => res = R::Unsat, _ => {} }
                Z3_solver_pop(self.c, self.inc, 1);
                if let R::Unknown = res { self.reset_inc(); }
            }
            if let R::Unknown = res { if let Some(m) = self.guess(ar, &slice, extra, &vlist, hint) { res = R::Sat(m); self.guessed += 1; } }
            if let R::Unknown = res {
                self.fallback += 1;
                let s = self.solver(None, self.t_full);
                slice.push(extra);
                for t in slice.iter() { let a = self.tr(ar, *t); Z3_solver_assert(self.c, s, a); }
                if let Some(d) = &self.dump { let txt = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned(); let _ = std::fs::write(format!("{d}/last.smt2"), txt + "\n(check-sat)\n"); }
                match Z3_solver_check(self.c, s) { 1 => res = R::Sat(self.model(ar, s, &vlist, false)), -1 => res = R::Unsat, _ => {} }
                if let R::Unknown = res {
                    if let Some(d) = &self.dump { let txt = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned(); let _ = std::fs::write(format!("{d}/unknown-{}.smt2", self.queries), txt + "\n(check-sat)\n"); }
                }
                Z3_solver_dec_ref(self.c, s);
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.slowest { self.slowest = dt; }
        if dt > 2.0 { if let Some(d) = self.dump.clone() { unsafe { let s = self.solver(None, 10); for t in key.iter() { let a = self.tr(ar, *t); Z3_solver_assert(self.c, s, a); } let txt = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned(); let _ = std::fs::write(format!("{d}/slow-{}-{:.0}.smt2", self.queries, dt), txt + "\n(check-sat)\n"); Z3_solver_dec_ref(self.c, s); } } }
        match &res {
            R::Sat(m) => { self.sat += 1; self.cache.insert(key, Some(std::rc::Rc::new(m.clone()))); }
            R::Unsat => { self.unsat += 1; self.cache.insert(key, None); }
            R::Unknown => self.unknown += 1,
        }
        res
    }
}
