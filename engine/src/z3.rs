//! Minimal hand-written binding to the Z3 C API and the translation of terms.
use crate::term::{mask, Model, Node::*, Terms, T};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, s: P);
    fn Z3_model_dec_ref(c: P, s: P);
    fn Z3_get_app_decl(c: P, a: P) -> P;
    fn Z3_model_get_const_interp(c: P, m: P, d: P) -> P;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, o: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
}
extern "C" fn on_err(_c: P, code: c_uint) {
    eprintln!("z3 error code {}", code);
    std::process::exit(3);
}

pub struct Solver {
    ctx: P,
    s: P,
    bsort: P,
    sorts: Vec<P>,
    bv: Vec<P>,    // bv translation, null = none
    bl: Vec<P>,    // bool translation
    decls: Vec<P>, // per var
    vsort_bool: Vec<bool>,
    stack: Vec<T>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
}
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(timeout_ms: u32, seed: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let mode = std::env::var("SYMEX_Z3").unwrap_or_default();
            let s = if mode == "simple" {
                Z3_mk_simple_solver(ctx)
            } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()))
            };
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            for (k, v) in [("timeout", timeout_ms), ("random_seed", seed)] {
                let k = CString::new(k).unwrap();
                Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), v);
            }
            Z3_solver_set_params(ctx, s, p);
            let bsort = Z3_mk_bool_sort(ctx);
            Solver {
                ctx,
                s,
                bsort,
                sorts: vec![],
                bv: vec![],
                bl: vec![],
                decls: vec![],
                vsort_bool: vec![],
                stack: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
            }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        while self.sorts.len() <= w as usize {
            self.sorts.push(std::ptr::null_mut());
        }
        if self.sorts[w as usize].is_null() {
            self.sorts[w as usize] = unsafe { Z3_mk_bv_sort(self.ctx, w) };
        }
        self.sorts[w as usize]
    }
    fn num(&mut self, w: u32, v: u128) -> P {
        let so = self.sort(w);
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, so)
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, s.as_ptr(), so)
            }
        }
    }
    fn var(&mut self, tm: &Terms, id: u32) -> P {
        while self.decls.len() <= id as usize {
            let i = self.decls.len();
            let vi = &tm.vars[i];
            let s = CString::new(format!("v{}", i)).unwrap();
            let so = if vi.w == 1 { self.bsort } else { self.sort(vi.w) };
            let c = unsafe { Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, s.as_ptr()), so) };
            self.decls.push(c);
            self.vsort_bool.push(vi.w == 1);
        }
        self.decls[id as usize]
    }
    /// boolean translation of a width-1 term
    fn tb(&mut self, tm: &Terms, t: T) -> P {
        let i = t.0 as usize;
        if self.bl.len() <= i {
            self.bl.resize(tm.nodes.len(), std::ptr::null_mut());
        }
        if !self.bl[i].is_null() {
            return self.bl[i];
        }
        let c = self.ctx;
        let r = unsafe {
            match tm.n(t) {
                Const(_, v) => {
                    if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Var(_, id) => self.var(tm, id),
                Not(a) => {
                    let a = self.tb(tm, a);
                    Z3_mk_not(c, a)
                }
                And(a, b) => {
                    let x = [self.tb(tm, a), self.tb(tm, b)];
                    Z3_mk_and(c, 2, x.as_ptr())
                }
                Eq(a, b) => {
                    let (x, y) = if tm.w(a) == 1 {
                        (self.tb(tm, a), self.tb(tm, b))
                    } else {
                        (self.tv(tm, a), self.tv(tm, b))
                    };
                    Z3_mk_eq(c, x, y)
                }
                Ult(a, b) => {
                    let (x, y) = (self.tv(tm, a), self.tv(tm, b));
                    Z3_mk_bvult(c, x, y)
                }
                Slt(a, b) => {
                    let (x, y) = (self.tv(tm, a), self.tv(tm, b));
                    Z3_mk_bvslt(c, x, y)
                }
                Ite(p, a, b) => {
                    let (p, x, y) = (self.tb(tm, p), self.tb(tm, a), self.tb(tm, b));
                    Z3_mk_ite(c, p, x, y)
                }
                _ => {
                    let v = self.tv_raw(tm, t);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, v, one)
                }
            }
        };
        if self.bl.len() <= i {
            self.bl.resize(tm.nodes.len(), std::ptr::null_mut());
        }
        self.bl[i] = r;
        r
    }
    fn tv(&mut self, tm: &Terms, t: T) -> P {
        let i = t.0 as usize;
        if self.bv.len() <= i {
            self.bv.resize(tm.nodes.len(), std::ptr::null_mut());
        }
        if !self.bv[i].is_null() {
            return self.bv[i];
        }
        let r = self.tv_raw(tm, t);
        if self.bv.len() <= i {
            self.bv.resize(tm.nodes.len(), std::ptr::null_mut());
        }
        self.bv[i] = r;
        r
    }
    fn tv_raw(&mut self, tm: &Terms, t: T) -> P {
        let c = self.ctx;
        let w = tm.w(t);
        macro_rules! bin {
            ($f:ident,$a:expr,$b:expr) => {{
                let (x, y) = (self.tv(tm, $a), self.tv(tm, $b));
                $f(c, x, y)
            }};
        }
        unsafe {
            match tm.n(t) {
                Const(w, v) => self.num(w, v),
                Var(1, _) | Eq(..) | Ult(..) | Slt(..) => {
                    let b = self.tb(tm, t);
                    let (o, z) = (self.num(1, 1), self.num(1, 0));
                    Z3_mk_ite(c, b, o, z)
                }
                Not(..) | And(..) if w == 1 => {
                    let b = self.tb(tm, t);
                    let (o, z) = (self.num(1, 1), self.num(1, 0));
                    Z3_mk_ite(c, b, o, z)
                }
                Var(_, id) => self.var(tm, id),
                Not(a) => {
                    let a = self.tv(tm, a);
                    Z3_mk_bvnot(c, a)
                }
                And(a, b) => bin!(Z3_mk_bvand, a, b),
                Or(a, b) => bin!(Z3_mk_bvor, a, b),
                Xor(a, b) => bin!(Z3_mk_bvxor, a, b),
                Add(a, b) => bin!(Z3_mk_bvadd, a, b),
                Sub(a, b) => bin!(Z3_mk_bvsub, a, b),
                Mul(a, b) => bin!(Z3_mk_bvmul, a, b),
                UDiv(a, b) => bin!(Z3_mk_bvudiv, a, b),
                URem(a, b) => bin!(Z3_mk_bvurem, a, b),
                SDiv(a, b) => bin!(Z3_mk_bvsdiv, a, b),
                SRem(a, b) => bin!(Z3_mk_bvsrem, a, b),
                Shl(a, b) => bin!(Z3_mk_bvshl, a, b),
                LShr(a, b) => bin!(Z3_mk_bvlshr, a, b),
                AShr(a, b) => bin!(Z3_mk_bvashr, a, b),
                Ite(p, a, b) => {
                    let p = self.tb(tm, p);
                    let (x, y) = (self.tv(tm, a), self.tv(tm, b));
                    Z3_mk_ite(c, p, x, y)
                }
                Ext(lo, w, a) => {
                    let a = self.tv(tm, a);
                    Z3_mk_extract(c, lo + w - 1, lo, a)
                }
                Concat(h, l) => bin!(Z3_mk_concat, h, l),
                ZExt(w, a) => {
                    let aw = tm.w(a);
                    let a = self.tv(tm, a);
                    Z3_mk_zero_ext(c, w - aw, a)
                }
                SExt(w, a) => {
                    let aw = tm.w(a);
                    let a = self.tv(tm, a);
                    Z3_mk_sign_ext(c, w - aw, a)
                }
            }
        }
    }
    pub fn show(&mut self, tm: &Terms, t: T) -> String {
        let a = if tm.w(t) == 1 { self.tb(tm, t) } else { self.tv(tm, t) };
        unsafe { CStr::from_ptr(Z3_ast_to_string(self.ctx, a)).to_string_lossy().into_owned() }
    }
    /// is path ∧ extra satisfiable; keeps the path on the solver's assertion stack
    pub fn check(&mut self, tm: &Terms, path: &[T], extra: Option<T>) -> Res {
        let t0 = std::time::Instant::now();
        unsafe {
            let mut common = 0;
            while common < self.stack.len() && common < path.len() && self.stack[common] == path[common] {
                common += 1;
            }
            if self.stack.len() > common {
                Z3_solver_pop(self.ctx, self.s, (self.stack.len() - common) as c_uint);
                self.stack.truncate(common);
            }
            for &t in &path[common..] {
                let a = self.tb(tm, t);
                Z3_solver_push(self.ctx, self.s);
                Z3_solver_assert(self.ctx, self.s, a);
                self.stack.push(t);
            }
            let r = if let Some(e) = extra {
                let a = self.tb(tm, e);
                // assumptions must be literals: assert in a scope instead
                Z3_solver_push(self.ctx, self.s);
                Z3_solver_assert(self.ctx, self.s, a);
                self.stack.push(e);
                Z3_solver_check(self.ctx, self.s)
            } else {
                Z3_solver_check(self.ctx, self.s)
            };
            let _ = Z3_solver_check_assumptions as usize;
            self.queries += 1;
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            match r {
                1 => {
                    self.sat += 1;
                    Res::Sat
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            }
        }
    }
    pub fn model(&mut self, tm: &Terms, id: u32) -> Model {
        unsafe {
            let m = Z3_solver_get_model(self.ctx, self.s);
            Z3_model_inc_ref(self.ctx, m);
            let mut vals = vec![0u128; tm.vars.len()];
            for i in 0..self.decls.len().min(tm.vars.len()) {
                let d = Z3_get_app_decl(self.ctx, self.decls[i]);
                let v = Z3_model_get_const_interp(self.ctx, m, d);
                if v.is_null() {
                    continue;
                }
                if self.vsort_bool[i] {
                    vals[i] = (v == Z3_mk_true(self.ctx)) as u128;
                } else if tm.vars[i].w <= 64 {
                    let mut o = 0u64;
                    Z3_get_numeral_uint64(self.ctx, v, &mut o);
                    vals[i] = o as u128;
                } else {
                    let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, v)).to_str().unwrap();
                    vals[i] = s.parse::<u128>().unwrap() & mask(tm.vars[i].w);
                }
            }
            Z3_model_dec_ref(self.ctx, m);
            Model { id, vals }
        }
    }
}
