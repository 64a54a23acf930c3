//! Z3 (C API) back end: satisfiability of a conjunction of 1-bit expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, l: P, r: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error code {}", e);
}

pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    bv: FMap<E, P>,
    bo: FMap<E, P>,
    lits: FMap<E, P>,
    syms: FMap<u32, (E, P)>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u128)>>, FastHash>,
    pub queries: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_query: f64,
    timeout_ms: u32,
    n_lits: usize,
}

pub fn z3_version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{}.{}.{}.{}", a, b, c, d)
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let mut s = Solver {
            c: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            bv: HashMap::default(),
            bo: HashMap::default(),
            lits: HashMap::default(),
            syms: HashMap::default(),
            cache: HashMap::default(),
            queries: 0,
            cached: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time: 0.0,
            max_query: 0.0,
            timeout_ms,
            n_lits: 0,
        };
        s.reset();
        s
    }
    fn reset(&mut self) {
        unsafe {
            if !self.c.is_null() {
                Z3_del_context(self.c);
            }
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            self.s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.c, self.s, p);
        }
        self.bv.clear();
        self.bo.clear();
        self.lits.clear();
        self.syms.clear();
        self.n_lits = 0;
    }

    fn num(&self, v: u128, wd: u16) -> P {
        unsafe {
            let s = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, wd as c_uint))
        }
    }
    /// Boolean translation of a 1-bit expression.
    fn tb(&mut self, e: E) -> P {
        if let Some(&p) = self.bo.get(&e) {
            return p;
        }
        let ctx = self.c;
        let r = unsafe {
            match node(e) {
                Node::Const(1) => Z3_mk_true(ctx),
                Node::Const(_) => Z3_mk_false(ctx),
                Node::Bin(op, a, b) => match op {
                    Op::And => {
                        let v = [self.tb(a), self.tb(b)];
                        Z3_mk_and(ctx, 2, v.as_ptr())
                    }
                    Op::Or => {
                        let v = [self.tb(a), self.tb(b)];
                        Z3_mk_or(ctx, 2, v.as_ptr())
                    }
                    Op::Xor => {
                        let x = self.tb(a);
                        if cst(b) == Some(1) {
                            Z3_mk_not(ctx, x)
                        } else {
                            let y = self.tb(b);
                            Z3_mk_xor(ctx, x, y)
                        }
                    }
                    Op::Eq => {
                        let (x, y) = (self.t(a), self.t(b));
                        Z3_mk_eq(ctx, x, y)
                    }
                    Op::Ult => {
                        let (x, y) = (self.t(a), self.t(b));
                        Z3_mk_bvult(ctx, x, y)
                    }
                    Op::Slt => {
                        let (x, y) = (self.t(a), self.t(b));
                        Z3_mk_bvslt(ctx, x, y)
                    }
                    _ => {
                        let p = self.t_raw(e);
                        Z3_mk_eq(ctx, p, self.num(1, 1))
                    }
                },
                Node::Ite(x, y, z) => {
                    let (x, y, z) = (self.tb(x), self.tb(y), self.tb(z));
                    Z3_mk_ite(ctx, x, y, z)
                }
                _ => {
                    let p = self.t_raw(e);
                    Z3_mk_eq(ctx, p, self.num(1, 1))
                }
            }
        };
        self.bo.insert(e, r);
        r
    }
    /// Bit-vector translation.
    fn t(&mut self, e: E) -> P {
        if w(e) == 1 {
            match node(e) {
                Node::Const(_) | Node::Sym(_) | Node::Ext(..) => {}
                _ => {
                    if let Some(&p) = self.bv.get(&e) {
                        return p;
                    }
                    let b = self.tb(e);
                    let r = unsafe { Z3_mk_ite(self.c, b, self.num(1, 1), self.num(0, 1)) };
                    self.bv.insert(e, r);
                    return r;
                }
            }
        }
        self.t_raw(e)
    }
    fn t_raw(&mut self, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let ctx = self.c;
        let wd = w(e);
        let r = unsafe {
            match node(e) {
                Node::Const(v) => self.num(v, wd),
                Node::Sym(i) => {
                    let s = CString::new(format!("s{}_{}", i, wd)).unwrap();
                    let p = Z3_mk_const(
                        ctx,
                        Z3_mk_string_symbol(ctx, s.as_ptr()),
                        Z3_mk_bv_sort(ctx, wd as c_uint),
                    );
                    self.syms.insert(e, (i, p));
                    p
                }
                Node::Bin(op, a, b) => {
                    let (x, y) = (self.t(a), self.t(b));
                    match op {
                        Op::Add => Z3_mk_bvadd(ctx, x, y),
                        Op::Sub => Z3_mk_bvsub(ctx, x, y),
                        Op::Mul => Z3_mk_bvmul(ctx, x, y),
                        Op::UDiv => Z3_mk_bvudiv(ctx, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(ctx, x, y),
                        Op::URem => Z3_mk_bvurem(ctx, x, y),
                        Op::SRem => Z3_mk_bvsrem(ctx, x, y),
                        Op::And => Z3_mk_bvand(ctx, x, y),
                        Op::Or => Z3_mk_bvor(ctx, x, y),
                        Op::Xor => Z3_mk_bvxor(ctx, x, y),
                        Op::Shl => Z3_mk_bvshl(ctx, x, y),
                        Op::LShr => Z3_mk_bvlshr(ctx, x, y),
                        Op::AShr => Z3_mk_bvashr(ctx, x, y),
                        Op::Concat => Z3_mk_concat(ctx, x, y),
                        Op::Eq | Op::Ult | Op::Slt => unreachable!(),
                    }
                }
                Node::Ite(x, y, z) => {
                    let (x, y, z) = (self.tb(x), self.t(y), self.t(z));
                    Z3_mk_ite(ctx, x, y, z)
                }
                Node::Ext(a, lo) => {
                    let x = self.t(a);
                    Z3_mk_extract(ctx, (lo + wd - 1) as c_uint, lo as c_uint, x)
                }
                Node::ZExt(a) => {
                    let x = self.t(a);
                    Z3_mk_zero_ext(ctx, (wd - w(a)) as c_uint, x)
                }
                Node::SExt(a) => {
                    let x = self.t(a);
                    Z3_mk_sign_ext(ctx, (wd - w(a)) as c_uint, x)
                }
            }
        };
        self.bv.insert(e, r);
        r
    }

    fn lit(&mut self, e: E) -> P {
        if let Some(&p) = self.lits.get(&e) {
            return p;
        }
        let t = self.tb(e);
        let p = unsafe {
            let s = CString::new(format!("p{}", e)).unwrap();
            let p = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), Z3_mk_bool_sort(self.c));
            let imp = Z3_mk_implies(self.c, p, t);
            Z3_solver_assert(self.c, self.s, imp);
            p
        };
        self.n_lits += 1;
        self.lits.insert(e, p);
        p
    }

    /// Satisfiability of the conjunction. `cs` must be free of constants.
    pub fn check(&mut self, mut cs: Vec<E>) -> Res {
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.cached += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        if self.n_lits > 120 {
            self.reset();
        }
        let t0 = Instant::now();
        let lits: Vec<P> = cs.iter().map(|&e| self.lit(e)).collect();
        let r = unsafe { Z3_solver_check_assumptions(self.c, self.s, lits.len() as c_uint, lits.as_ptr()) };
        self.queries += 1;
        let out = match r {
            1 => {
                self.sat += 1;
                let mut vs: u128 = 0;
                for &e in &cs {
                    vs |= vars(e);
                }
                let mut m = vec![];
                unsafe {
                    let md = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, md);
                    let used: Vec<(u32, P)> = self
                        .syms
                        .values()
                        .filter(|(i, _)| (vs >> (*i).min(127)) & 1 == 1)
                        .copied()
                        .collect();
                    for (i, p) in used {
                        let mut v: P = std::ptr::null_mut();
                        if !Z3_model_eval(self.c, md, p, true, &mut v) {
                            continue;
                        }
                        let st = Z3_get_numeral_string(self.c, v);
                        let st = CStr::from_ptr(st).to_str().unwrap();
                        if let Ok(x) = st.parse::<u128>() {
                            m.push((i, x));
                        }
                    }
                    Z3_model_dec_ref(self.c, md);
                }
                Res::Sat(m)
            }
            -1 => {
                self.unsat += 1;
                Res::Unsat
            }
            _ => {
                self.unknown += 1;
                Res::Unknown
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_query {
            self.max_query = dt;
        }
        match &out {
            Res::Sat(m) => {
                self.cache.insert(cs, Some(m.clone()));
            }
            Res::Unsat => {
                self.cache.insert(cs, None);
            }
            _ => {}
        }
        let _ = (Z3_get_bool_value as usize, Z3_get_error_code as usize);
        out
    }
}
