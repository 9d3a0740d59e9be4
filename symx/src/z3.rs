//! Minimal binding to the system's libz3 (C API) and translation of expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
}
extern "C" fn err(_c: P, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::abort();
}
pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sat { Yes, No, Unknown }

pub struct Solver {
    c: P,
    s: P,
    pub stack: Vec<Ex>, // assertions, one scope each
    bv: IdMap<(P, Ex)>,
    bo: IdMap<(P, Ex)>,
    sorts: std::collections::HashMap<u32, P>,
    vars: std::collections::HashMap<(u32, u32), P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub bvs: bool,
    seed: u32,
    timeout: u32,
}

impl Solver {
    pub fn new(seed: u32, timeout: u32, bvs: bool) -> Self {
        let mut s = Solver { c: std::ptr::null_mut(), s: std::ptr::null_mut(), stack: vec![], bv: IdMap::default(), bo: IdMap::default(),
            sorts: Default::default(), vars: Default::default(), queries: 0, sat: 0, unsat: 0, time: 0.0, bvs, seed, timeout };
        s.init();
        s
    }
    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.c, Some(err));
            self.s = if !self.bvs { Z3_mk_simple_solver(self.c) } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()))
            };
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            for (k, v) in [("random_seed", self.seed), ("timeout", self.timeout)] {
                let k = CString::new(k).unwrap();
                Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), v);
            }
            Z3_solver_set_params(self.c, self.s, p);
        }
    }
    pub fn reset(&mut self) {
        unsafe { Z3_del_context(self.c); }
        self.stack.clear();
        self.bv.clear();
        self.bo.clear();
        self.sorts.clear();
        self.vars.clear();
        self.init();
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { let s = Z3_mk_bv_sort(c, w); Z3_inc_ref(c, s); s })
    }
    fn variable(&mut self, i: u32, w: u32) -> P {
        if let Some(p) = self.vars.get(&(i, w)) { return *p; }
        let s = self.sort(w);
        let n = CString::new(format!("v{}_{}", i, w)).unwrap();
        let c = self.c;
        let v = unsafe { let v = Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), s); Z3_inc_ref(c, v); v };
        self.vars.insert((i, w), v);
        v
    }
    unsafe fn fpv(&mut self, e: &Ex) -> P {
        let b = self.to_bv(e);
        let s = if e.w == 32 { Z3_mk_fpa_sort_32(self.c) } else { Z3_mk_fpa_sort_64(self.c) };
        Z3_mk_fpa_to_fp_bv(self.c, b, s)
    }
    fn to_bool(&mut self, e: &Ex) -> P {
        if let Some(x) = self.bo.get(&e.id) { return x.0; }
        let c = self.c;
        let r = unsafe {
            match e.op {
                Op::Const => if e.c != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::And => { let a = [self.to_bool(&e.k[0]), self.to_bool(&e.k[1])]; Z3_mk_and(c, 2, a.as_ptr()) }
                Op::Or => { let a = [self.to_bool(&e.k[0]), self.to_bool(&e.k[1])]; Z3_mk_or(c, 2, a.as_ptr()) }
                Op::Xor => {
                    let a = self.to_bool(&e.k[0]);
                    if e.k[1].val() == Some(1) { Z3_mk_not(c, a) } else { let b = self.to_bool(&e.k[1]); Z3_mk_xor(c, a, b) }
                }
                Op::Ite => { let (x, a, b) = (self.to_bool(&e.k[0]), self.to_bool(&e.k[1]), self.to_bool(&e.k[2])); Z3_mk_ite(c, x, a, b) }
                Op::Eq if e.k[0].w == 1 => { let (a, b) = (self.to_bool(&e.k[0]), self.to_bool(&e.k[1])); Z3_mk_eq(c, a, b) }
                Op::Eq => { let (a, b) = (self.to_bv(&e.k[0]), self.to_bv(&e.k[1])); Z3_mk_eq(c, a, b) }
                Op::Ult => { let (a, b) = (self.to_bv(&e.k[0]), self.to_bv(&e.k[1])); Z3_mk_bvult(c, a, b) }
                Op::Ule => { let (a, b) = (self.to_bv(&e.k[0]), self.to_bv(&e.k[1])); Z3_mk_bvule(c, a, b) }
                Op::Slt => { let (a, b) = (self.to_bv(&e.k[0]), self.to_bv(&e.k[1])); Z3_mk_bvslt(c, a, b) }
                Op::Sle => { let (a, b) = (self.to_bv(&e.k[0]), self.to_bv(&e.k[1])); Z3_mk_bvsle(c, a, b) }
                Op::FEq => { let (a, b) = (self.fpv(&e.k[0]), self.fpv(&e.k[1])); Z3_mk_fpa_eq(c, a, b) }
                Op::FLt => { let (a, b) = (self.fpv(&e.k[0]), self.fpv(&e.k[1])); Z3_mk_fpa_lt(c, a, b) }
                Op::FLe => { let (a, b) = (self.fpv(&e.k[0]), self.fpv(&e.k[1])); Z3_mk_fpa_leq(c, a, b) }
                Op::FNan => { let a = self.fpv(&e.k[0]); Z3_mk_fpa_is_nan(c, a) }
                _ => { let a = self.to_bv(e); let s = self.sort(1); let one = Z3_mk_unsigned_int64(c, 1, s); Z3_mk_eq(c, a, one) }
            }
        };
        unsafe { Z3_inc_ref(c, r); }
        self.bo.insert(e.id, (r, e.clone()));
        r
    }
    fn to_bv(&mut self, e: &Ex) -> P {
        if e.op == Op::Var { return self.variable(e.c as u32, e.w); }
        if let Some(x) = self.bv.get(&e.id) { return x.0; }
        let c = self.c;
        let r = unsafe {
            macro_rules! b2 { ($f:ident) => {{ let (a, b) = (self.to_bv(&e.k[0]), self.to_bv(&e.k[1])); $f(c, a, b) }} }
            match e.op {
                Op::Const => {
                    let s = self.sort(e.w);
                    if e.c <= u64::MAX as u128 { Z3_mk_unsigned_int64(c, e.c as u64, s) } else {
                        let n = CString::new(e.c.to_string()).unwrap();
                        Z3_mk_numeral(c, n.as_ptr(), s)
                    }
                }
                _ if e.w == 1 && !matches!(e.op, Op::Extract) && matches!(e.op, Op::And | Op::Or | Op::Xor | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FNan) => {
                    let b = self.to_bool(e);
                    let s = self.sort(1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                Op::Add => b2!(Z3_mk_bvadd), Op::Sub => b2!(Z3_mk_bvsub), Op::Mul => b2!(Z3_mk_bvmul),
                Op::UDiv => b2!(Z3_mk_bvudiv), Op::SDiv => b2!(Z3_mk_bvsdiv), Op::URem => b2!(Z3_mk_bvurem), Op::SRem => b2!(Z3_mk_bvsrem),
                Op::Shl => b2!(Z3_mk_bvshl), Op::LShr => b2!(Z3_mk_bvlshr), Op::AShr => b2!(Z3_mk_bvashr),
                Op::And => b2!(Z3_mk_bvand), Op::Or => b2!(Z3_mk_bvor), Op::Xor => b2!(Z3_mk_bvxor),
                Op::Concat => b2!(Z3_mk_concat),
                Op::Extract => { let a = self.to_bv(&e.k[0]); Z3_mk_extract(c, e.c as u32 + e.w - 1, e.c as u32, a) }
                Op::ZExt => { let a = self.to_bv(&e.k[0]); Z3_mk_zero_ext(c, e.w - e.k[0].w, a) }
                Op::SExt => { let a = self.to_bv(&e.k[0]); Z3_mk_sign_ext(c, e.w - e.k[0].w, a) }
                Op::Ite => { let (x, a, b) = (self.to_bool(&e.k[0]), self.to_bv(&e.k[1]), self.to_bv(&e.k[2])); Z3_mk_ite(c, x, a, b) }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.fpv(&e.k[0]), self.fpv(&e.k[1]));
                    let rm = Z3_mk_fpa_rne(c);
                    let r = match e.op { Op::FAdd => Z3_mk_fpa_add(c, rm, a, b), Op::FSub => Z3_mk_fpa_sub(c, rm, a, b), Op::FMul => Z3_mk_fpa_mul(c, rm, a, b), _ => Z3_mk_fpa_div(c, rm, a, b) };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::FNeg => { let a = self.to_bv(&e.k[0]); let s = self.sort(e.w); Z3_mk_bvxor(c, a, Z3_mk_unsigned_int64(c, 1u64 << (e.w - 1), s)) }
                Op::FRound => {
                    let a = self.fpv(&e.k[0]);
                    let rm = match e.c { 0 => Z3_mk_fpa_rne(c), 1 => Z3_mk_fpa_rna(c), 2 => Z3_mk_fpa_rtp(c), 3 => Z3_mk_fpa_rtn(c), _ => Z3_mk_fpa_rtz(c) };
                    let x = Z3_mk_fpa_round_to_integral(c, rm, a);
                    Z3_mk_fpa_to_ieee_bv(c, x)
                }
                Op::FpExt => { let a = self.fpv(&e.k[0]); let x = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, Z3_mk_fpa_sort_64(c)); Z3_mk_fpa_to_ieee_bv(c, x) }
                Op::FpTrunc => { let a = self.fpv(&e.k[0]); let x = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, Z3_mk_fpa_sort_32(c)); Z3_mk_fpa_to_ieee_bv(c, x) }
                Op::UiToFp | Op::SiToFp => {
                    let a = self.to_bv(&e.k[0]);
                    let s = if e.w == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
                    let x = if e.op == Op::UiToFp { Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, s) } else { Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, s) };
                    Z3_mk_fpa_to_ieee_bv(c, x)
                }
                Op::FpToUi => { let a = self.fpv(&e.k[0]); Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, e.w) }
                Op::FpToSi => { let a = self.fpv(&e.k[0]); Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, e.w) }
                _ => unreachable!("{:?}", e.op),
            }
        };
        unsafe { Z3_inc_ref(c, r); }
        self.bv.insert(e.id, (r, e.clone()));
        r
    }
    /// Bring the solver's scopes in line with a path condition.
    fn align(&mut self, pc: &[Ex]) {
        if self.bv.len() + self.bo.len() > 400_000 { self.reset(); }
        let mut n = 0;
        while n < pc.len() && n < self.stack.len() && std::sync::Arc::ptr_eq(&pc[n], &self.stack[n]) { n += 1; }
        let d = self.stack.len() - n;
        if d > 0 {
            unsafe { Z3_solver_pop(self.c, self.s, d as u32); }
            self.stack.truncate(n);
        }
        for e in &pc[n..] {
            let b = self.to_bool(e);
            unsafe { Z3_solver_push(self.c, self.s); Z3_solver_assert(self.c, self.s, b); }
            self.stack.push(e.clone());
        }
    }
    /// Is pc and e satisfiable? On yes, a model for variables with the given widths.
    pub fn check(&mut self, pc: &[Ex], e: &Ex, widths: &[u8]) -> (Sat, Vec<u64>) {
        let t = Instant::now();
        self.align(pc);
        let b = self.to_bool(e);
        let mut out = vec![];
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, b);
            let r = match Z3_solver_check(self.c, self.s) { 1 => Sat::Yes, -1 => Sat::No, _ => Sat::Unknown };
            if r == Sat::Yes {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                for (i, w) in widths.iter().enumerate() {
                    let v = self.variable(i as u32, *w as u32);
                    let mut a = std::ptr::null_mut();
                    let mut x = 0u64;
                    if Z3_model_eval(self.c, m, v, true, &mut a) { Z3_get_numeral_uint64(self.c, a, &mut x); }
                    out.push(x);
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        self.queries += 1;
        match r { Sat::Yes => self.sat += 1, Sat::No => self.unsat += 1, _ => {} }
        self.time += t.elapsed().as_secs_f64();
        (r, out)
    }
    /// The query as SMT-LIB text, for cross-checking with another solver.
    pub fn smt2(&mut self, pc: &[Ex], e: &Ex, widths: &[u8]) -> String {
        let mut s = String::from("(set-logic ALL)\n");
        for (i, w) in widths.iter().enumerate() { s.push_str(&format!("(declare-const v{}_{} (_ BitVec {}))\n", i, w, w)); }
        for x in pc.iter().chain(std::iter::once(e)) {
            let b = self.to_bool(x);
            let t = unsafe { std::ffi::CStr::from_ptr(Z3_ast_to_string(self.c, b)).to_string_lossy().into_owned() };
            s.push_str(&format!("(assert {})\n", t));
        }
        s.push_str("(check-sat)\n");
        s
    }
}
