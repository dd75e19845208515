//! Z3 (libz3, C API) back end with constraint slicing and a query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}
extern "C" fn on_err(_c: P, e: c_int) { eprintln!("z3 error code {e}"); std::process::exit(70); }

pub enum Res { Sat(Rc<Vec<(E, u128)>>), Unsat, Unknown }

pub struct Solver {
    ctx: P, solver: P,
    bv: HashMap<E, P>, bl: HashMap<E, P>,
    cache: HashMap<Vec<E>, Option<Option<Rc<Vec<(E, u128)>>>>>,
    pub queries: u64, pub cache_hits: u64, pub time: f64, pub max_time: f64, pub unknowns: u64, pub unsat: u64, pub sat: u64,
    pub dump_dir: Option<String>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            Solver { ctx, solver, bv: HashMap::new(), bl: HashMap::new(), cache: HashMap::new(), queries: 0, cache_hits: 0, time: 0.0, max_time: 0.0, unknowns: 0, unsat: 0, sat: 0, dump_dir: None }
        }
    }
    fn num(&self, v: u128, w: u8) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w as c_uint);
            if w <= 64 { Z3_mk_unsigned_int64(self.ctx, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.ctx, t.as_ptr(), s) }
        }
    }
    fn to_bv(&mut self, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) { return p; }
        let k = key(e);
        let c = self.ctx;
        let p = unsafe {
            if k.w == 1 && !matches!(k.op, Op::Const) { let b = self.to_bool(e); let (o, z) = (self.num(1, 1), self.num(0, 1)); Z3_mk_ite(c, b, o, z) }
            else { match k.op {
                Op::Const => self.num(k.k, k.w),
                Op::Var => { let n = CString::new(format!("v{}", k.k)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, k.w as c_uint)) }
                Op::Zext => { let a = self.to_bv(k.a); Z3_mk_zero_ext(c, (k.w - width(k.a)) as c_uint, a) }
                Op::Sext => { let a = self.to_bv(k.a); Z3_mk_sign_ext(c, (k.w - width(k.a)) as c_uint, a) }
                Op::Extract => { let a = self.to_bv(k.a); Z3_mk_extract(c, (k.k + k.w as u128 - 1) as c_uint, k.k as c_uint, a) }
                Op::Concat => { let a = self.to_bv(k.a); let b = self.to_bv(k.b); Z3_mk_concat(c, a, b) }
                Op::Ite => { let a = self.to_bool(k.a); let b = self.to_bv(k.b); let d = self.to_bv(k.c); Z3_mk_ite(c, a, b, d) }
                _ => { let a = self.to_bv(k.a); let b = self.to_bv(k.b);
                    match k.op { Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b), Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b), Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b), _ => unreachable!() } }
            } }
        };
        self.bv.insert(e, p);
        p
    }
    fn to_bool(&mut self, e: E) -> P {
        if let Some(&p) = self.bl.get(&e) { return p; }
        let k = key(e);
        debug_assert!(k.w == 1);
        let c = self.ctx;
        let p = unsafe { match k.op {
            Op::Const => if k.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
            Op::Var => { let n = CString::new(format!("v{}", k.k)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bool_sort(c)) }
            Op::Extract => { let a = self.to_bv(k.a); let x = Z3_mk_extract(c, k.k as c_uint, k.k as c_uint, a); Z3_mk_eq(c, x, self.num(1, 1)) }
            Op::Ite => { let a = self.to_bool(k.a); let b = self.to_bool(k.b); let d = self.to_bool(k.c); Z3_mk_ite(c, a, b, d) }
            Op::And => { let x = [self.to_bool(k.a), self.to_bool(k.b)]; Z3_mk_and(c, 2, x.as_ptr()) }
            Op::Or => { let x = [self.to_bool(k.a), self.to_bool(k.b)]; Z3_mk_or(c, 2, x.as_ptr()) }
            Op::Xor | Op::Add | Op::Sub => { let a = self.to_bool(k.a); if as_const(k.b) == Some(1) { Z3_mk_not(c, a) } else { let b = self.to_bool(k.b); Z3_mk_xor(c, a, b) } }
            Op::Eq if width(k.a) == 1 => { let a = self.to_bool(k.a); let b = self.to_bool(k.b); Z3_mk_eq(c, a, b) }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let a = self.to_bv(k.a); let b = self.to_bv(k.b);
                match k.op { Op::Eq => Z3_mk_eq(c, a, b), Op::Ult => Z3_mk_bvult(c, a, b), Op::Ule => Z3_mk_bvule(c, a, b), Op::Slt => Z3_mk_bvslt(c, a, b), _ => Z3_mk_bvsle(c, a, b) } }
            Op::Mul => { let x = [self.to_bool(k.a), self.to_bool(k.b)]; Z3_mk_and(c, 2, x.as_ptr()) }
            _ => panic!("to_bool {:?}", k.op),
        } };
        self.bl.insert(e, p);
        p
    }
    /// Satisfiability of the conjunction of `cs` (all width 1).
    fn raw_check(&mut self, cs: &[E]) -> Option<Option<Rc<Vec<(E, u128)>>>> {
        let t0 = Instant::now();
        self.queries += 1;
        let c = self.ctx;
        unsafe {
            Z3_solver_reset(c, self.solver);
            let mut vs: Vec<E> = vec![];
            for &e in cs { let p = self.to_bool(e); Z3_solver_assert(c, self.solver, p); vs.extend(vars(e).iter()); }
            vs.sort(); vs.dedup();
            for &v in &vs { // static ranges
                let w = width(v); let (lo, hi) = range(v);
                if w > 1 && lo > 0 { let a = self.num(lo, w); let b = self.to_bv(v); Z3_solver_assert(c, self.solver, Z3_mk_bvule(c, a, b)); }
                if w > 1 && hi < mask(w) { let a = self.num(hi, w); let b = self.to_bv(v); Z3_solver_assert(c, self.solver, Z3_mk_bvule(c, b, a)); }
            }
            if let Some(d) = &self.dump_dir { if self.queries % 50 == 1 { let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, self.solver)); let _ = std::fs::write(format!("{d}/q{}_{}.smt2", std::process::id(), self.queries), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s.to_str().unwrap())); } }
            let r = Z3_solver_check(c, self.solver);
            let res = if r == 1 {
                let m = Z3_solver_get_model(c, self.solver);
                Z3_model_inc_ref(c, m);
                let mut out = vec![];
                for v in vs {
                    let w = width(v);
                    let ast = if w == 1 { self.to_bool(v) } else { self.to_bv(v) };
                    let mut o: P = std::ptr::null_mut();
                    Z3_model_eval(c, m, ast, true, &mut o);
                    let val = if w == 1 { (Z3_get_bool_value(c, o) == 1) as u128 } else { std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, o)).to_str().unwrap().parse().unwrap() };
                    out.push((v, val));
                }
                Z3_model_dec_ref(c, m);
                self.sat += 1;
                Some(Some(Rc::new(out)))
            } else if r == -1 { self.unsat += 1; Some(None) } else { self.unknowns += 1; None };
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_time { self.max_time = dt; }
            res
        }
    }
    /// Is pc AND cond satisfiable? pc is known satisfiable; only the part sharing variables with cond matters.
    pub fn check(&mut self, pc: &[E], cond: E) -> Res {
        if let Some(v) = as_const(cond) { return if v == 1 { Res::Sat(Rc::new(vec![])) } else { Res::Unsat }; }
        let mut vs: Vec<u32> = vars(cond).to_vec();
        let mut used = vec![false; pc.len()];
        let mut slice = vec![cond];
        loop {
            let mut changed = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] { continue; }
                let cv = vars(c);
                if cv.iter().any(|v| vs.binary_search(v).is_ok()) {
                    used[i] = true; slice.push(c); changed = true;
                    let mut add: Vec<u32> = cv.iter().filter(|v| vs.binary_search(v).is_err()).copied().collect();
                    if !add.is_empty() { vs.append(&mut add); vs.sort(); }
                }
            }
            if !changed { break; }
        }
        slice.sort(); slice.dedup();
        if let Some(r) = self.cache.get(&slice) { self.cache_hits += 1; return conv(r.clone()); }
        let r = self.raw_check(&slice);
        self.cache.insert(slice, r.clone());
        conv(r)
    }
}
fn conv(r: Option<Option<Rc<Vec<(E, u128)>>>>) -> Res { match r { None => Res::Unknown, Some(None) => Res::Unsat, Some(Some(m)) => Res::Sat(m) } }
