//! Z3 (C API) as the decision procedure, with constraint slicing and a query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint(c: P, v: P, u: *mut c_uint) -> bool;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}
extern "C" fn onerr(_c: P, e: c_int) { eprintln!("z3 error code {e}"); std::process::exit(7); }

#[derive(Clone, Debug)]
pub enum R { Sat(Vec<(u32, u8)>), Unsat, Unknown }

pub struct Solver {
    c: P, s: P, bv1: P, one: P,
    asts: HashMap<E, P>, sorts: HashMap<u32, P>,
    cache: HashMap<Vec<E>, R>,
    pub queries: u64, pub hits: u64, pub secs: f64, pub unknown: u64, pub sat: u64, pub unsat: u64,
    pub dump: Option<(String, u64, u64)>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self { unsafe {
        let c = Z3_mk_context(Z3_mk_config());
        Z3_set_error_handler(c, Some(onerr));
        let l = CString::new("QF_BV").unwrap();
        let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
        Z3_solver_inc_ref(c, s);
        let p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
        let t = CString::new("timeout").unwrap();
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
        Z3_solver_set_params(c, s, p);
        let bv1 = Z3_mk_bv_sort(c, 1);
        let o = CString::new("1").unwrap();
        let one = Z3_mk_numeral(c, o.as_ptr(), bv1);
        Solver { c, s, bv1, one, asts: HashMap::new(), sorts: HashMap::new(), cache: HashMap::new(), queries: 0, hits: 0, secs: 0.0, unknown: 0, sat: 0, unsat: 0, dump: None }
    } }
    fn sort(&mut self, w: u32) -> P { let c = self.c; *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) }) }
    fn b2bv(&self, b: P) -> P { unsafe { let z = CString::new("0").unwrap(); let zero = Z3_mk_numeral(self.c, z.as_ptr(), self.bv1); Z3_mk_ite(self.c, b, self.one, zero) } }
    fn ast(&mut self, e: E) -> P {
        if let Some(&p) = self.asts.get(&e) { return p; }
        let nd = node(e);
        let c = self.c;
        let r = unsafe { match nd.n {
            N::Const(k) => { let s = CString::new(k.to_string()).unwrap(); let so = self.sort(nd.w); Z3_mk_numeral(c, s.as_ptr(), so) }
            N::Var(i) => { let so = self.sort(8); Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), so) }
            N::Bin(op, a, b) => { let (x, y) = (self.ast(a), self.ast(b)); (match op {
                B::Add => Z3_mk_bvadd, B::Sub => Z3_mk_bvsub, B::Mul => Z3_mk_bvmul, B::UDiv => Z3_mk_bvudiv, B::SDiv => Z3_mk_bvsdiv,
                B::URem => Z3_mk_bvurem, B::SRem => Z3_mk_bvsrem, B::And => Z3_mk_bvand, B::Or => Z3_mk_bvor, B::Xor => Z3_mk_bvxor,
                B::Shl => Z3_mk_bvshl, B::LShr => Z3_mk_bvlshr, B::AShr => Z3_mk_bvashr })(c, x, y) }
            N::Cmp(op, a, b) => { let (x, y) = (self.ast(a), self.ast(b)); let t = (match op {
                C::Eq => Z3_mk_eq, C::Ult => Z3_mk_bvult, C::Ule => Z3_mk_bvule, C::Slt => Z3_mk_bvslt, C::Sle => Z3_mk_bvsle })(c, x, y); self.b2bv(t) }
            N::Not(a) => { let x = self.ast(a); Z3_mk_bvnot(c, x) }
            N::Ite(k, a, b) => { let (k, x, y) = (self.ast(k), self.ast(a), self.ast(b)); Z3_mk_ite(c, Z3_mk_eq(c, k, self.one), x, y) }
            N::Concat(a, b) => { let (x, y) = (self.ast(a), self.ast(b)); Z3_mk_concat(c, x, y) }
            N::Extract(h, l, a) => { let x = self.ast(a); Z3_mk_extract(c, h, l, x) }
            N::ZExt(a) => { let x = self.ast(a); Z3_mk_zero_ext(c, nd.w - width(a), x) }
            N::SExt(a) => { let x = self.ast(a); Z3_mk_sign_ext(c, nd.w - width(a), x) }
        } };
        self.asts.insert(e, r);
        r
    }
    /// Are the constraints (each of width 1) satisfiable together?
    pub fn check(&mut self, cs: &[E]) -> R {
        let mut key: Vec<E> = cs.iter().copied().filter(|&e| as_const(e) != Some(1)).collect();
        key.sort_unstable(); key.dedup();
        if key.iter().any(|&e| as_const(e) == Some(0)) { return R::Unsat; }
        if key.is_empty() { return R::Sat(vec![]); }
        if let Some(r) = self.cache.get(&key) { self.hits += 1; return r.clone(); }
        let t = Instant::now();
        let mut vs: VSet = [0; MAXV / 64];
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in &key {
                let a = self.ast(e);
                Z3_solver_assert(self.c, self.s, Z3_mk_eq(self.c, a, self.one));
                for i in 0..vs.len() { vs[i] |= node(e).vars[i]; }
            }
            let k = Z3_solver_check(self.c, self.s);
            self.queries += 1;
            if let Some((dir, n, step)) = &mut self.dump { if self.queries % *step == 0 {
                let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{dir}/q{n}.smt2"), format!("; expect {}\n(set-logic QF_BV)\n{s}\n(check-sat)\n", if k == 1 { "sat" } else if k == -1 { "unsat" } else { "unknown" }));
                *n += 1;
            } }
            let r = match k {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = Vec::new();
                    for i in 0..MAXV as u32 { if vs[i as usize / 64] >> (i % 64) & 1 == 1 {
                        let a = self.ast(var(i));
                        let mut v: P = std::ptr::null_mut();
                        let mut u: c_uint = 0;
                        if !Z3_model_eval(self.c, m, a, true, &mut v) || !Z3_get_numeral_uint(self.c, v, &mut u) { eprintln!("z3 model evaluation failed"); std::process::exit(7); }
                        out.push((i, u as u8));
                    } }
                    Z3_model_dec_ref(self.c, m);
                    // a model is only believed after it has been evaluated
                    let mut full = vec![0u8; MAXV];
                    for &(i, b) in &out { full[i as usize] = b; }
                    let mut memo = HashMap::new();
                    for &e in &key { if eval(e, &full, &mut memo) != 1 { eprintln!("z3 model does not satisfy the constraints"); std::process::exit(7); } }
                    self.sat += 1;
                    R::Sat(out)
                }
                -1 => { self.unsat += 1; R::Unsat }
                _ => { self.unknown += 1; R::Unknown }
            };
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        self.secs += t.elapsed().as_secs_f64();
        self.cache.insert(key, r.clone());
        r
    }
}

/// The constraints of `pc` that share symbolic bytes, transitively, with `e`.
pub fn slice(pc: &[E], e: E) -> Vec<E> {
    let mut vs = node(e).vars;
    let mut left: Vec<E> = pc.to_vec();
    let mut out = vec![e];
    loop {
        let n = left.len();
        left.retain(|&x| {
            let xv = &node(x).vars;
            if xv.iter().zip(&vs).any(|(a, b)| a & b != 0) { for i in 0..vs.len() { vs[i] |= xv[i]; } out.push(x); false } else { true }
        });
        if left.len() == n { return out; }
    }
}
