//! z3 (C API) back end with a query cache.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        eprintln!("z3 error: {:?}", CStr::from_ptr(Z3_get_error_msg(c, e)));
    }
    std::process::abort();
}

pub type Model = Vec<(u32, u8)>;

pub struct Solver {
    c: P,
    s: P,
    ast: Vec<P>,
    bools: FxMap<E, P>,
    cache: FxMap<Vec<E>, Option<Rc<Model>>>,
    pub queries: u64,
    pub unsat: u64,
    pub hits: u64,
    pub secs: f64,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_err);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 120_000);
            Z3_solver_set_params(c, s, p);
            Solver {
                c,
                s,
                ast: vec![],
                bools: FxMap::default(),
                cache: FxMap::default(),
                queries: 0,
                unsat: 0,
                hits: 0,
                secs: 0.0,
            }
        }
    }
    fn konst(&self, w: u16, v: u128) -> P {
        unsafe {
            let c = self.c;
            if w <= 64 {
                Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, w as c_uint))
            } else {
                let hi = Z3_mk_unsigned_int64(c, (v >> 64) as u64, Z3_mk_bv_sort(c, (w - 64) as c_uint));
                let lo = Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, 64));
                Z3_mk_concat(c, hi, lo)
            }
        }
    }
    fn boolean(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.bools.get(&e) {
            return p;
        }
        let c = self.c;
        let p = match x.node(e) {
            Node::Cmp(p, a, b) => {
                let a = self.tr(x, a);
                let b = self.tr(x, b);
                unsafe {
                    match p {
                        Pred::Eq => Z3_mk_eq(c, a, b),
                        Pred::Ult => Z3_mk_bvult(c, a, b),
                        Pred::Ule => Z3_mk_bvule(c, a, b),
                        Pred::Slt => Z3_mk_bvslt(c, a, b),
                        Pred::Sle => Z3_mk_bvsle(c, a, b),
                    }
                }
            }
            _ => {
                let a = self.tr(x, e);
                let one = self.konst(1, 1);
                unsafe { Z3_mk_eq(c, a, one) }
            }
        };
        self.bools.insert(e, p);
        p
    }
    fn tr(&mut self, x: &Ctx, e: E) -> P {
        if self.ast.len() <= e as usize {
            self.ast.resize(x.nodes.len(), std::ptr::null_mut());
        }
        let r = self.ast[e as usize];
        if !r.is_null() {
            return r;
        }
        let c = self.c;
        let w = x.w(e);
        let r = unsafe {
            match x.node(e) {
                Node::Const(v) => self.konst(w, v),
                Node::Var(v) => {
                    let n = CString::new(format!("v{v}")).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, 8))
                }
                Node::Bin(op, a, b) => {
                    let a = self.tr(x, a);
                    let b = self.tr(x, b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                    }
                }
                Node::Cmp(..) => {
                    let b = self.boolean(x, e);
                    let t = self.konst(1, 1);
                    let f = self.konst(1, 0);
                    Z3_mk_ite(c, b, t, f)
                }
                Node::ZExt(a) => {
                    let n = w - x.w(a);
                    let a = self.tr(x, a);
                    Z3_mk_zero_ext(c, n as c_uint, a)
                }
                Node::SExt(a) => {
                    let n = w - x.w(a);
                    let a = self.tr(x, a);
                    Z3_mk_sign_ext(c, n as c_uint, a)
                }
                Node::Extract(lo, a) => {
                    let a = self.tr(x, a);
                    Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, a)
                }
                Node::Concat(h, l) => {
                    let h = self.tr(x, h);
                    let l = self.tr(x, l);
                    Z3_mk_concat(c, h, l)
                }
                Node::Ite(k, a, b) => {
                    let k = self.boolean(x, k);
                    let a = self.tr(x, a);
                    let b = self.tr(x, b);
                    Z3_mk_ite(c, k, a, b)
                }
                Node::Table(t, a) => {
                    let a = self.tr(x, a);
                    let tb = x.tables[t as usize].clone();
                    let mut acc = self.konst(w, tb[255] as u128);
                    let mut last = tb[255];
                    for i in (0..255usize).rev() {
                        if tb[i] != last {
                            let k = Z3_mk_bvule(c, a, self.konst(8, i as u128));
                            let v = self.konst(w, tb[i] as u128);
                            acc = Z3_mk_ite(c, k, v, acc);
                            last = tb[i];
                        }
                    }
                    acc
                }
            }
        };
        if self.ast.len() <= e as usize {
            self.ast.resize(x.nodes.len(), std::ptr::null_mut());
        }
        self.ast[e as usize] = r;
        r
    }
    /// satisfiability of a conjunction; a model gives the variables of the conjunction
    pub fn check(&mut self, x: &Ctx, mut cs: Vec<E>) -> Result<Option<Rc<Model>>, String> {
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.hits += 1;
            return Ok(r.clone());
        }
        let t = Instant::now();
        self.queries += 1;
        let mut vars = [0u64; VW];
        for e in &cs {
            for k in 0..VW {
                vars[k] |= x.sup(*e)[k];
            }
        }
        unsafe {
            Z3_solver_push(self.c, self.s);
            for e in &cs {
                let b = self.boolean(x, *e);
                Z3_solver_assert(self.c, self.s, b);
            }
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for k in 0..VW {
                        let mut b = vars[k];
                        while b != 0 {
                            let v = k as u32 * 64 + b.trailing_zeros();
                            b &= b - 1;
                            let n = CString::new(format!("v{v}")).unwrap();
                            let a = Z3_mk_const(
                                self.c,
                                Z3_mk_string_symbol(self.c, n.as_ptr()),
                                Z3_mk_bv_sort(self.c, 8),
                            );
                            let mut val: P = std::ptr::null_mut();
                            let mut u = 0u64;
                            if !Z3_model_eval(self.c, m, a, true, &mut val)
                                || !Z3_get_numeral_uint64(self.c, val, &mut u)
                            {
                                return Err("z3 model evaluation failed".into());
                            }
                            out.push((v, u as u8));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Some(Rc::new(out))
                }
                -1 => {
                    self.unsat += 1;
                    None
                }
                _ => return Err("z3 returned unknown".into()),
            };
            Z3_solver_pop(self.c, self.s, 1);
            self.secs += t.elapsed().as_secs_f64();
            self.cache.insert(cs, out.clone());
            Ok(out)
        }
    }
}
