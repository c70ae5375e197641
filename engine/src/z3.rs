//! Minimal binding to libz3 and the translation of our expression DAG into it.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_unsat_core(c: P, s: P) -> P;
    fn Z3_ast_vector_inc_ref(c: P, v: P);
    fn Z3_ast_vector_dec_ref(c: P, v: P);
    fn Z3_ast_vector_size(c: P, v: P) -> c_uint;
    fn Z3_ast_vector_get(c: P, v: P, i: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Res {
    Sat(Vec<(usize, u128)>),
    /// the conjuncts of an unsatisfiable core
    Unsat(Vec<E>),
    Unknown,
}

const RESET: usize = 100;

pub struct Solver {
    c: P,
    s: P,
    bv: Vec<P>,
    bl: Vec<P>,
    /// one Boolean per conjunct ever used, with (proxy -> conjunct) asserted for good
    px: Vec<P>,
    back: std::collections::HashMap<usize, E>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: std::time::Duration,
    pub max: std::time::Duration,
    timeout_ms: u32,
    pub dump: Option<(String, u64)>,
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {e}");
    std::process::abort();
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let mut s = Solver {
            c: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            bv: vec![],
            bl: vec![],
            px: vec![],
            back: Default::default(),
            queries: 0,
            sat: 0,
            unsat: 0,
            time: Default::default(),
            max: Default::default(),
            timeout_ms,
            dump: None,
        };
        s.open();
        s
    }
    fn open(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.c = Z3_mk_context(cfg);
            Z3_set_error_handler(self.c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(self.c, l.as_ptr());
            self.s = Z3_mk_solver_for_logic(self.c, sym);
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, t.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.c, self.s, p);
        }
        self.bv.clear();
        self.bl.clear();
        self.px.clear();
        self.back.clear();
    }
    fn close(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c);
        }
    }
    fn num(&self, w: u8, k: u128) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w as c_uint);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, k as u64, s)
            } else {
                let t = CString::new(k.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn get(v: &Vec<P>, e: E) -> P {
        v.get(e as usize).copied().unwrap_or(std::ptr::null_mut())
    }
    fn put(v: &mut Vec<P>, e: E, p: P) {
        if v.len() <= e as usize {
            v.resize(e as usize + 1, std::ptr::null_mut())
        }
        v[e as usize] = p;
    }
    fn to_bool(&mut self, d: &Dag, e: E) -> P {
        let r = Self::get(&self.bl, e);
        if !r.is_null() {
            return r;
        }
        let n = d.n[e as usize];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let a = self.to_bool(d, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And => {
                    let a = [self.to_bool(d, n.a), self.to_bool(d, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.to_bool(d, n.a), self.to_bool(d, n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Xor => {
                    let a = self.to_bool(d, n.a);
                    let b = self.to_bool(d, n.b);
                    Z3_mk_xor(c, a, b)
                }
                Op::Ite => {
                    let a = self.to_bool(d, n.a);
                    let b = self.to_bool(d, n.b);
                    let e = self.to_bool(d, n.c);
                    Z3_mk_ite(c, a, b, e)
                }
                Op::Eq if d.w(n.a) == 1 => {
                    let a = self.to_bool(d, n.a);
                    let b = self.to_bool(d, n.b);
                    Z3_mk_eq(c, a, b)
                }
                Op::Eq => {
                    let a = self.to_bv(d, n.a);
                    let b = self.to_bv(d, n.b);
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult => {
                    let a = self.to_bv(d, n.a);
                    let b = self.to_bv(d, n.b);
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let a = self.to_bv(d, n.a);
                    let b = self.to_bv(d, n.b);
                    Z3_mk_bvslt(c, a, b)
                }
                _ => {
                    let a = self.to_bv(d, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        Self::put(&mut self.bl, e, r);
        r
    }
    fn to_bv(&mut self, d: &Dag, e: E) -> P {
        let r = Self::get(&self.bv, e);
        if !r.is_null() {
            return r;
        }
        let n = d.n[e as usize];
        let c = self.c;
        macro_rules! b2 {
            ($f:ident) => {{
                let a = self.to_bv(d, n.a);
                let b = self.to_bv(d, n.b);
                $f(c, a, b)
            }};
        }
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.w, n.k),
                Op::Var => {
                    // the symbol encodes index and width: the same index may have another width on another path
                    let s = Z3_mk_bv_sort(c, n.w as c_uint);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, (n.k as c_int) * 256 + n.w as c_int), s)
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    let b = self.to_bool(d, e);
                    let (o, z) = (self.num(1, 1), self.num(1, 0));
                    Z3_mk_ite(c, b, o, z)
                }
                Op::Not => {
                    let a = self.to_bv(d, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::And => b2!(Z3_mk_bvand),
                Op::Or => b2!(Z3_mk_bvor),
                Op::Xor => b2!(Z3_mk_bvxor),
                Op::Add => b2!(Z3_mk_bvadd),
                Op::Sub => b2!(Z3_mk_bvsub),
                Op::Mul => b2!(Z3_mk_bvmul),
                Op::UDiv => b2!(Z3_mk_bvudiv),
                Op::URem => b2!(Z3_mk_bvurem),
                Op::SDiv => b2!(Z3_mk_bvsdiv),
                Op::SRem => b2!(Z3_mk_bvsrem),
                Op::Shl => b2!(Z3_mk_bvshl),
                Op::LShr => b2!(Z3_mk_bvlshr),
                Op::AShr => b2!(Z3_mk_bvashr),
                Op::Concat => b2!(Z3_mk_concat),
                Op::Extract => {
                    let a = self.to_bv(d, n.a);
                    Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, a)
                }
                Op::SExt => {
                    let wa = d.w(n.a);
                    let a = self.to_bv(d, n.a);
                    Z3_mk_sign_ext(c, (n.w - wa) as c_uint, a)
                }
                Op::Ite => {
                    let a = self.to_bool(d, n.a);
                    let b = self.to_bv(d, n.b);
                    let e = self.to_bv(d, n.c);
                    Z3_mk_ite(c, a, b, e)
                }
            }
        };
        Self::put(&mut self.bv, e, r);
        r
    }
    /// satisfiability of the conjunction; the model covers the variables in `vars` (index, width)
    pub fn check(&mut self, d: &Dag, conj: &[E], vars: &[(usize, u8)]) -> Res {
        let t0 = std::time::Instant::now();
        if self.back.len() > RESET {
            self.close();
            self.open();
        }
        self.queries += 1;
        let mut asm: Vec<P> = vec![];
        for e in conj {
            let mut p = Self::get(&self.px, *e);
            if p.is_null() {
                let t = self.to_bool(d, *e);
                unsafe {
                    let b = Z3_mk_bool_sort(self.c);
                    let n = CString::new(format!("p{e}")).unwrap();
                    p = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), b);
                    let o = [Z3_mk_not(self.c, p), t];
                    Z3_solver_assert(self.c, self.s, Z3_mk_or(self.c, 2, o.as_ptr()));
                }
                Self::put(&mut self.px, *e, p);
                self.back.insert(p as usize, *e);
            }
            asm.push(p);
        }
        let r = unsafe {
            if let Some((dir, every)) = &self.dump {
                if self.queries % *every == 0 {
                    let txt = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                    let name = format!("{dir}/q{:?}_{}.smt2", std::thread::current().id(), self.queries).replace(['(', ')'], "");
                    let _ = std::fs::write(name, txt + "\n(check-sat)\n");
                }
            }
            match Z3_solver_check_assumptions(self.c, self.s, asm.len() as c_uint, asm.as_ptr()) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for (i, w) in vars.iter() {
                        let so = Z3_mk_bv_sort(self.c, *w as c_uint);
                        let vt = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, (*i as c_int) * 256 + *w as c_int), so);
                        let mut o: P = std::ptr::null_mut();
                        let mut v = 0u64;
                        if Z3_model_eval(self.c, m, vt, true, &mut o) && Z3_get_numeral_uint64(self.c, o, &mut v) {
                            out.push((*i, v as u128));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    let v = Z3_solver_get_unsat_core(self.c, self.s);
                    Z3_ast_vector_inc_ref(self.c, v);
                    let n = Z3_ast_vector_size(self.c, v);
                    let core = (0..n).filter_map(|i| self.back.get(&(Z3_ast_vector_get(self.c, v, i) as usize)).copied()).collect();
                    Z3_ast_vector_dec_ref(self.c, v);
                    Res::Unsat(core)
                }
                _ => Res::Unknown,
            }
        };
        let dt = t0.elapsed();
        self.time += dt;
        self.max = self.max.max(dt);
        r
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        self.close()
    }
}
