//! z3 through its C API: one incremental solver, cached term translation, query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_uint));
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_uint) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().to_string() };
    eprintln!("symx: z3 error {}: {}", e, m);
    std::process::exit(70);
}

#[derive(Clone)]
pub enum Res { Sat(Rc<Vec<(u32, u64)>>), Unsat, Unknown }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cache_hits: u64, pub model_hits: u64, pub time_us: u64, pub max_us: u64 }

pub struct Solver {
    c: P,
    s: P,
    bv: FxMap<Ex, P>,
    bo: FxMap<Ex, P>,
    one: P,
    zero: P,
    cache: HashMap<Vec<Ex>, Res, Fx>,
    pub stats: Stats,
    pub dump: Option<(String, u64, u64)>, // dir, every, written
    pub next_model: u64,
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, on_err);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 200_000_000);
            Z3_solver_set_params(c, s, p);
            let b1 = Z3_mk_bv_sort(c, 1);
            let one = Z3_mk_unsigned_int64(c, 1, b1);
            Z3_inc_ref(c, one);
            let zero = Z3_mk_unsigned_int64(c, 0, b1);
            Z3_inc_ref(c, zero);
            Solver { c, s, bv: Default::default(), bo: Default::default(), one, zero, cache: Default::default(), stats: Default::default(), dump: None, next_model: 1 }
        }
    }
    pub fn new_model(&mut self, vals: Vec<u64>) -> Rc<Model> {
        self.next_model += 1;
        Rc::new(Model { id: self.next_model, vals })
    }
    fn to_bool(&mut self, ar: &Arena, e: Ex) -> P {
        if let Some(&p) = self.bo.get(&e) { return p; }
        let c = self.c;
        let p = unsafe {
            match ar.n(e) {
                Node::Const(_, v) => if v != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Node::Not(a) => { let a = self.to_bool(ar, a); Z3_mk_not(c, a) }
                Node::Cmp(op, a, b) => {
                    let (x, y) = (self.to_bv(ar, a), self.to_bv(ar, b));
                    match op { Cop::Eq => Z3_mk_eq(c, x, y), Cop::Ult => Z3_mk_bvult(c, x, y), Cop::Slt => Z3_mk_bvslt(c, x, y) }
                }
                Node::Bin(Bop::And, 1, a, b) => { let v = [self.to_bool(ar, a), self.to_bool(ar, b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Node::Bin(Bop::Or, 1, a, b) => { let v = [self.to_bool(ar, a), self.to_bool(ar, b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Node::Ite(1, k, a, b) => { let k = self.to_bool(ar, k); let (x, y) = (self.to_bool(ar, a), self.to_bool(ar, b)); Z3_mk_ite(c, k, x, y) }
                _ => { let x = self.to_bv(ar, e); Z3_mk_eq(c, x, self.one) }
            }
        };
        unsafe { Z3_inc_ref(c, p) };
        self.bo.insert(e, p);
        p
    }
    fn to_bv(&mut self, ar: &Arena, e: Ex) -> P {
        if let Some(&p) = self.bv.get(&e) { return p; }
        let c = self.c;
        let p = unsafe {
            match ar.n(e) {
                Node::Const(w, v) => {
                    let s = Z3_mk_bv_sort(c, w as c_uint);
                    if w <= 64 { Z3_mk_unsigned_int64(c, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(c, t.as_ptr(), s) }
                }
                Node::Var(w, i) => {
                    let t = CString::new(format!("v{}_{}", i, w)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, t.as_ptr()), Z3_mk_bv_sort(c, w as c_uint))
                }
                Node::Not(_) | Node::Cmp(..) => { let b = self.to_bool(ar, e); Z3_mk_ite(c, b, self.one, self.zero) }
                Node::Bin(op, _, a, b) => {
                    let (x, y) = (self.to_bv(ar, a), self.to_bv(ar, b));
                    match op {
                        Bop::Add => Z3_mk_bvadd(c, x, y), Bop::Sub => Z3_mk_bvsub(c, x, y), Bop::Mul => Z3_mk_bvmul(c, x, y),
                        Bop::UDiv => Z3_mk_bvudiv(c, x, y), Bop::URem => Z3_mk_bvurem(c, x, y), Bop::SDiv => Z3_mk_bvsdiv(c, x, y), Bop::SRem => Z3_mk_bvsrem(c, x, y),
                        Bop::Shl => Z3_mk_bvshl(c, x, y), Bop::LShr => Z3_mk_bvlshr(c, x, y), Bop::AShr => Z3_mk_bvashr(c, x, y),
                        Bop::And => Z3_mk_bvand(c, x, y), Bop::Or => Z3_mk_bvor(c, x, y), Bop::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
                Node::Ite(_, k, a, b) => { let k = self.to_bool(ar, k); let (x, y) = (self.to_bv(ar, a), self.to_bv(ar, b)); Z3_mk_ite(c, k, x, y) }
                Node::ZExt(w, a) => { let x = self.to_bv(ar, a); Z3_mk_zero_ext(c, (w - ar.width(a)) as c_uint, x) }
                Node::SExt(w, a) => { let x = self.to_bv(ar, a); Z3_mk_sign_ext(c, (w - ar.width(a)) as c_uint, x) }
                Node::Extract(lo, w, a) => { let x = self.to_bv(ar, a); Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, x) }
                Node::Concat(_, h, l) => { let (x, y) = (self.to_bv(ar, h), self.to_bv(ar, l)); Z3_mk_concat(c, x, y) }
            }
        };
        unsafe { Z3_inc_ref(c, p) };
        self.bv.insert(e, p);
        p
    }
    /// Is pc /\ cond satisfiable?  Only the constraints connected to `cond` by shared variables are sent.
    pub fn check(&mut self, ar: &mut Arena, pc: &[Ex], cond: Ex) -> Res {
        if let Some(v) = ar.as_const(cond) { if v == 0 { return Res::Unsat; } }
        // slice
        let mut vars: Vec<(u32, u16)> = (*ar.vars(cond)).clone();
        let mut inset = vec![false; pc.len()];
        let pv: Vec<Rc<Vec<(u32, u16)>>> = pc.iter().map(|&e| ar.vars(e)).collect();
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if inset[i] { continue; }
                if pv[i].iter().any(|v| vars.binary_search(v).is_ok()) {
                    inset[i] = true;
                    let before = vars.len();
                    vars.extend(pv[i].iter());
                    vars.sort(); vars.dedup();
                    if vars.len() != before { ch = true; }
                }
            }
            if !ch { break; }
        }
        let mut key: Vec<Ex> = (0..pc.len()).filter(|&i| inset[i]).map(|i| pc[i]).collect();
        key.sort_unstable(); key.dedup();
        key.push(cond);
        if let Some(r) = self.cache.get(&key) { self.stats.cache_hits += 1; return r.clone(); }
        let t0 = std::time::Instant::now();
        let terms: Vec<P> = key.iter().map(|&e| self.to_bool(ar, e)).collect();
        let r = unsafe {
            let (c, s) = (self.c, self.s);
            Z3_solver_push(c, s);
            for t in terms { Z3_solver_assert(c, s, t); }
            let k = Z3_solver_check(c, s);
            if let Some((dir, every, n)) = &mut self.dump {
                if self.stats.queries % *every == 0 && *n < 200 {
                    let txt = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().to_string();
                    let exp = match k { 1 => "sat", -1 => "unsat", _ => "unknown" };
                    let _ = std::fs::write(format!("{}/q{}_{}.smt2", dir, std::process::id(), n), format!("; expect {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", exp, txt));
                    *n += 1;
                }
            }
            let r = match k {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for &(i, w) in &vars {
                        let v = ar.var(w, i);
                        let t = self.to_bv(ar, v);
                        let mut r: P = std::ptr::null_mut();
                        let mut n = 0u64;
                        if !Z3_model_eval(c, m, t, true, &mut r) || !Z3_get_numeral_uint64(c, r, &mut n) { eprintln!("symx: model eval failed"); std::process::exit(70); }
                        out.push((i, n));
                    }
                    Z3_model_dec_ref(c, m);
                    self.stats.sat += 1;
                    Res::Sat(Rc::new(out))
                }
                -1 => { self.stats.unsat += 1; Res::Unsat }
                _ => { self.stats.unknown += 1; Res::Unknown }
            };
            Z3_solver_pop(c, s, 1);
            r
        };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.queries += 1;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        if let Res::Sat(m) = &r {
            // the model must satisfy what was asked (validates translation and simplifier against z3)
            let mut vals = vec![];
            for &(i, v) in m.iter() { if vals.len() <= i as usize { vals.resize(i as usize + 1, 0); } vals[i as usize] = v; }
            let md = self.new_model(vals);
            for &e in &key { if ar.eval(e, &md) != 1 { eprintln!("symx: INTERNAL: z3 model does not satisfy the encoded constraint"); std::process::exit(71); } }
        }
        if self.cache.len() > 400_000 { self.cache.clear(); }
        self.cache.insert(key, r.clone());
        r
    }
}
