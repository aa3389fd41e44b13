//! Minimal FFI binding to libz3 and translation of `expr` nodes.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    cx: P,
    sol: P,
    one: P,
    zero: P,
    bv: FxMap<E, P>,
    lits: FxMap<E, P>,
    asserted: usize,
    nlit: usize,
    pub n_sat: u64,
    pub n_unsat: u64,
    pub n_unknown: u64,
    pub time: f64,
    pub max_time: f64,
    timeout_ms: u32,
    /// Queries written for cross-checking with a second solver.
    pub dump: Vec<(String, bool)>,
    pub dump_every: u64,
    pub dump_max: usize,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let cx = Z3_mk_context_rc(cfg);
            let s1 = Z3_mk_bv_sort(cx, 1);
            let c1 = CString::new("1").unwrap();
            let c0 = CString::new("0").unwrap();
            let one = Z3_mk_numeral(cx, c1.as_ptr(), s1);
            Z3_inc_ref(cx, one);
            let zero = Z3_mk_numeral(cx, c0.as_ptr(), s1);
            Z3_inc_ref(cx, zero);
            let mut z = Z3 {
                cx,
                sol: std::ptr::null_mut(),
                one,
                zero,
                bv: FxMap::default(),
                lits: FxMap::default(),
                asserted: 0,
                nlit: 0,
                n_sat: 0,
                n_unsat: 0,
                n_unknown: 0,
                time: 0.0,
                max_time: 0.0,
                timeout_ms,
                dump: vec![],
                dump_every: 0,
                dump_max: 0,
            };
            z.fresh();
            z
        }
    }
    fn fresh(&mut self) {
        unsafe {
            if !self.sol.is_null() {
                Z3_solver_dec_ref(self.cx, self.sol);
            }
            let l = CString::new("QF_BV").unwrap();
            self.sol = Z3_mk_solver_for_logic(self.cx, Z3_mk_string_symbol(self.cx, l.as_ptr()));
            Z3_solver_inc_ref(self.cx, self.sol);
            let p = Z3_mk_params(self.cx);
            Z3_params_inc_ref(self.cx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.cx, p, Z3_mk_string_symbol(self.cx, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.cx, self.sol, p);
        }
        self.lits.clear();
        self.asserted = 0;
    }
    fn keep(&mut self, p: P) -> P {
        unsafe { Z3_inc_ref(self.cx, p) };
        p
    }
    fn tr(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let n = ar.n[e as usize];
        let cx = self.cx;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    let s = CString::new(n.val.to_string()).unwrap();
                    Z3_mk_numeral(cx, s.as_ptr(), Z3_mk_bv_sort(cx, n.w as u32))
                }
                Op::Var => {
                    let s = CString::new(format!("v{}_{}", n.val & 0xffff_ffff, n.val >> 32)).unwrap();
                    Z3_mk_const(cx, Z3_mk_string_symbol(cx, s.as_ptr()), Z3_mk_bv_sort(cx, n.w as u32))
                }
                Op::Extract => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_extract(cx, n.val as u32 + n.w as u32 - 1, n.val as u32, a)
                }
                Op::ZExt => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_zero_ext(cx, n.w as u32 - ar.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_sign_ext(cx, n.w as u32 - ar.w(n.a), a)
                }
                Op::Ite => {
                    let c = self.tr(ar, n.a);
                    let a = self.tr(ar, n.b);
                    let b = self.tr(ar, n.c);
                    let c = Z3_mk_eq(cx, c, self.one);
                    Z3_mk_ite(cx, c, a, b)
                }
                _ => {
                    let a = self.tr(ar, n.a);
                    let b = self.tr(ar, n.b);
                    let (one, zero) = (self.one, self.zero);
                    let boo = |x: P| Z3_mk_ite(cx, x, one, zero);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(cx, a, b),
                        Op::Sub => Z3_mk_bvsub(cx, a, b),
                        Op::Mul => Z3_mk_bvmul(cx, a, b),
                        Op::UDiv => Z3_mk_bvudiv(cx, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(cx, a, b),
                        Op::URem => Z3_mk_bvurem(cx, a, b),
                        Op::SRem => Z3_mk_bvsrem(cx, a, b),
                        Op::And => Z3_mk_bvand(cx, a, b),
                        Op::Or => Z3_mk_bvor(cx, a, b),
                        Op::Xor => Z3_mk_bvxor(cx, a, b),
                        Op::Shl => Z3_mk_bvshl(cx, a, b),
                        Op::LShr => Z3_mk_bvlshr(cx, a, b),
                        Op::AShr => Z3_mk_bvashr(cx, a, b),
                        Op::Concat => Z3_mk_concat(cx, a, b),
                        Op::Eq => boo(Z3_mk_eq(cx, a, b)),
                        Op::Ult => boo(Z3_mk_bvult(cx, a, b)),
                        Op::Ule => boo(Z3_mk_bvule(cx, a, b)),
                        Op::Slt => boo(Z3_mk_bvslt(cx, a, b)),
                        Op::Sle => boo(Z3_mk_bvsle(cx, a, b)),
                        _ => unreachable!(),
                    }
                }
            }
        };
        let p = self.keep(p);
        self.bv.insert(e, p);
        p
    }
    /// Literal implying constraint `e` (width 1, must be 1).
    fn lit(&mut self, ar: &mut Arena, e: E) -> P {
        if let Some(&p) = self.lits.get(&e) {
            return p;
        }
        let t = self.tr(ar, e);
        unsafe {
            self.nlit += 1;
            let s = CString::new(format!("p{}", self.nlit)).unwrap();
            let p = Z3_mk_const(self.cx, Z3_mk_string_symbol(self.cx, s.as_ptr()), Z3_mk_bool_sort(self.cx));
            self.keep(p);
            let f = Z3_mk_implies(self.cx, p, Z3_mk_eq(self.cx, t, self.one));
            Z3_solver_assert(self.cx, self.sol, f);
            self.asserted += 1;
            self.lits.insert(e, p);
            p
        }
    }
    /// Decide the conjunction of `cs` plus the domain bound of each variable in `vars`.
    /// On Sat returns values for `vars`.
    pub fn check(&mut self, ar: &mut Arena, cs: &[E], vars: &[E]) -> (Res, Vec<u64>) {
        if self.asserted > 20000 {
            self.fresh();
        }
        let t0 = Instant::now();
        let mut ls: Vec<P> = Vec::with_capacity(cs.len() + vars.len());
        let mut all: Vec<E> = cs.to_vec();
        for &v in vars {
            let hi = (ar.n[v as usize].val >> 32) as u64;
            let w = ar.w(v);
            if hi as u128 != mask(w) {
                let k = ar.konst(w, hi as u128);
                // build the bound without simplification (the simplifier knows it to be true)
                let c = self.bound(ar, v, k);
                ls.push(c);
            }
        }
        for &c in cs {
            ls.push(self.lit(ar, c));
        }
        all.dedup();
        let r = unsafe { Z3_solver_check_assumptions(self.cx, self.sol, ls.len() as u32, ls.as_ptr()) };
        let mut vals = vec![];
        let res = match r {
            1 => {
                self.n_sat += 1;
                unsafe {
                    let m = Z3_solver_get_model(self.cx, self.sol);
                    Z3_model_inc_ref(self.cx, m);
                    for &v in vars {
                        let t = self.tr(ar, v);
                        let mut o: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.cx, m, t, true, &mut o) {
                            Z3_get_numeral_uint64(self.cx, o, &mut u);
                        }
                        vals.push(u);
                    }
                    Z3_model_dec_ref(self.cx, m);
                }
                Res::Sat
            }
            -1 => {
                self.n_unsat += 1;
                Res::Unsat
            }
            _ => {
                self.n_unknown += 1;
                Res::Unknown
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        if self.dump_every > 0 && self.dump.len() < self.dump_max && (self.n_sat + self.n_unsat) % self.dump_every == 1 && res != Res::Unknown {
            let q = smt2(ar, cs, vars);
            self.dump.push((q, res == Res::Sat));
        }
        (res, vals)
    }
    fn bound(&mut self, ar: &mut Arena, v: E, k: E) -> P {
        // key: the variable node itself (never a width-1 constraint with a partial domain)
        if let Some(&p) = self.lits.get(&(v | 0x8000_0000)) {
            return p;
        }
        let a = self.tr(ar, v);
        let b = self.tr(ar, k);
        unsafe {
            self.nlit += 1;
            let s = CString::new(format!("p{}", self.nlit)).unwrap();
            let p = Z3_mk_const(self.cx, Z3_mk_string_symbol(self.cx, s.as_ptr()), Z3_mk_bool_sort(self.cx));
            self.keep(p);
            let f = Z3_mk_implies(self.cx, p, Z3_mk_bvule(self.cx, a, b));
            Z3_solver_assert(self.cx, self.sol, f);
            self.asserted += 1;
            self.lits.insert(v | 0x8000_0000, p);
            p
        }
    }
    #[allow(dead_code)]
    pub fn to_smt(&self) -> String {
        unsafe { CStr::from_ptr(Z3_solver_to_string(self.cx, self.sol)).to_string_lossy().into_owned() }
    }
    #[allow(dead_code)]
    fn unused(&self) {
        unsafe {
            Z3_mk_not(self.cx, self.one);
        }
    }
}

/// A query as a stand-alone SMT-LIB 2 script.
pub fn smt2(ar: &Arena, cs: &[E], vars: &[E]) -> String {
    let mut o = String::from("(set-logic QF_BV)\n");
    for &v in vars {
        let n = ar.n[v as usize];
        o += &format!("(declare-const v{} (_ BitVec {}))\n", v, n.w);
        o += &format!("(assert (bvule v{} (_ bv{} {})))\n", v, n.val >> 32, n.w);
    }
    let mut done: FxMap<E, ()> = FxMap::default();
    fn go(ar: &Arena, e: E, done: &mut FxMap<E, ()>, o: &mut String) {
        if done.contains_key(&e) {
            return;
        }
        let n = ar.n[e as usize];
        if n.op == Op::Var || n.op == Op::Const {
            return;
        }
        let k = arity(n.op);
        go(ar, n.a, done, o);
        if k > 1 {
            go(ar, n.b, done, o);
        }
        if k > 2 {
            go(ar, n.c, done, o);
        }
        let r = |x: E| {
            let m = ar.n[x as usize];
            match m.op {
                Op::Const => format!("(_ bv{} {})", m.val, m.w),
                Op::Var => format!("v{}", x),
                _ => format!("e{}", x),
            }
        };
        let body = match n.op {
            Op::Extract => format!("((_ extract {} {}) {})", n.val + n.w as u128 - 1, n.val, r(n.a)),
            Op::ZExt => format!("((_ zero_extend {}) {})", n.w as u32 - ar.w(n.a), r(n.a)),
            Op::SExt => format!("((_ sign_extend {}) {})", n.w as u32 - ar.w(n.a), r(n.a)),
            Op::Ite => format!("(ite (= {} #b1) {} {})", r(n.a), r(n.b), r(n.c)),
            Op::Eq => format!("(ite (= {} {}) #b1 #b0)", r(n.a), r(n.b)),
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let f = match n.op {
                    Op::Ult => "bvult",
                    Op::Ule => "bvule",
                    Op::Slt => "bvslt",
                    _ => "bvsle",
                };
                format!("(ite ({} {} {}) #b1 #b0)", f, r(n.a), r(n.b))
            }
            _ => {
                let f = match n.op {
                    Op::Add => "bvadd",
                    Op::Sub => "bvsub",
                    Op::Mul => "bvmul",
                    Op::UDiv => "bvudiv",
                    Op::SDiv => "bvsdiv",
                    Op::URem => "bvurem",
                    Op::SRem => "bvsrem",
                    Op::And => "bvand",
                    Op::Or => "bvor",
                    Op::Xor => "bvxor",
                    Op::Shl => "bvshl",
                    Op::LShr => "bvlshr",
                    Op::AShr => "bvashr",
                    Op::Concat => "concat",
                    _ => unreachable!(),
                };
                format!("({} {} {})", f, r(n.a), r(n.b))
            }
        };
        done.insert(e, ());
        *o += &format!("(define-fun e{} () (_ BitVec {}) {})\n", e, n.w, body);
    }
    for &c in cs {
        go(ar, c, &mut done, &mut o);
        let n = ar.n[c as usize];
        match n.op {
            Op::Const => o += &format!("(assert (= (_ bv{} 1) #b1))\n", n.val),
            Op::Var => o += &format!("(assert (= v{} #b1))\n", c),
            _ => o += &format!("(assert (= e{} #b1))\n", c),
        }
    }
    o += "(check-sat)\n";
    o
}
