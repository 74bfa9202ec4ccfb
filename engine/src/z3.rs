//! Minimal FFI to the system libz3, and the per-thread solver front end.

use crate::expr::{Arena, Bin, Cmp, Id, N};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: P, e: c_uint) {
    eprintln!("z3: internal error code {e}");
    std::process::exit(4);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

/// Reference-counted constructors: every term stays alive as long as the context.
macro_rules! keep {
    ($($n:ident = $z:ident($($a:ident : $t:ty),*);)*) => {
        $(unsafe fn $n(c: P, $($a: $t),*) -> P {
            let r = $z(c, $($a),*);
            Z3_inc_ref(c, r);
            r
        })*
    };
}
keep! {
    mk_eq = Z3_mk_eq(a: P, b: P);
    mk_not = Z3_mk_not(a: P);
    mk_ite = Z3_mk_ite(a: P, b: P, d: P);
    mk_numeral = Z3_mk_numeral(s: *const c_char, t: P);
    mk_const = Z3_mk_const(s: P, t: P);
    mk_bvadd = Z3_mk_bvadd(a: P, b: P);
    mk_bvsub = Z3_mk_bvsub(a: P, b: P);
    mk_bvmul = Z3_mk_bvmul(a: P, b: P);
    mk_bvudiv = Z3_mk_bvudiv(a: P, b: P);
    mk_bvsdiv = Z3_mk_bvsdiv(a: P, b: P);
    mk_bvurem = Z3_mk_bvurem(a: P, b: P);
    mk_bvsrem = Z3_mk_bvsrem(a: P, b: P);
    mk_bvshl = Z3_mk_bvshl(a: P, b: P);
    mk_bvlshr = Z3_mk_bvlshr(a: P, b: P);
    mk_bvashr = Z3_mk_bvashr(a: P, b: P);
    mk_bvand = Z3_mk_bvand(a: P, b: P);
    mk_bvor = Z3_mk_bvor(a: P, b: P);
    mk_bvxor = Z3_mk_bvxor(a: P, b: P);
    mk_bvnot = Z3_mk_bvnot(a: P);
    mk_bvult = Z3_mk_bvult(a: P, b: P);
    mk_bvslt = Z3_mk_bvslt(a: P, b: P);
    mk_zero_ext = Z3_mk_zero_ext(i: c_uint, a: P);
    mk_sign_ext = Z3_mk_sign_ext(i: c_uint, a: P);
    mk_extract = Z3_mk_extract(h: c_uint, l: c_uint, a: P);
    mk_concat = Z3_mk_concat(a: P, b: P);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub nanos: u64,
}

pub struct Z3 {
    c: P,
    s: P,
    bv: std::collections::HashMap<u16, P>,
    ast: Vec<P>,
    bools: std::collections::HashMap<Id, P>,
    pub stats: Stats,
    pub dump: Vec<(String, bool)>,
    pub dump_every: u64,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 {
                c,
                s,
                bv: Default::default(),
                ast: Vec::new(),
                bools: Default::default(),
                stats: Default::default(),
                dump: Vec::new(),
                dump_every: 0,
            }
        }
    }

    fn sort(&mut self, w: u16) -> P {
        let c = self.c;
        *self.bv.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(c, w as c_uint);
            Z3_inc_ref(c, s);
            s
        })
    }

    /// Bit-vector term of an expression (booleans are 1-bit vectors).
    fn term(&mut self, a: &Arena, id: Id) -> P {
        let i = id as usize;
        if self.ast.len() <= i {
            self.ast.resize(a.nodes.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.ast[i].is_null() {
            return self.ast[i];
        }
        let w = a.w(id);
        let c = self.c;
        let r = unsafe {
            match a.n(id) {
                N::Const(k) => {
                    let s = CString::new(k.to_string()).unwrap();
                    let so = self.sort(w);
                    mk_numeral(c, s.as_ptr(), so)
                }
                N::Var(k) => {
                    let s = CString::new(format!("b{k}")).unwrap();
                    let so = self.sort(8);
                    mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), so)
                }
                N::Bin(op, x, y) => {
                    let (p, q) = (self.term(a, x), self.term(a, y));
                    match op {
                        Bin::Add => mk_bvadd(c, p, q),
                        Bin::Sub => mk_bvsub(c, p, q),
                        Bin::Mul => mk_bvmul(c, p, q),
                        Bin::UDiv => mk_bvudiv(c, p, q),
                        Bin::SDiv => mk_bvsdiv(c, p, q),
                        Bin::URem => mk_bvurem(c, p, q),
                        Bin::SRem => mk_bvsrem(c, p, q),
                        Bin::Shl => mk_bvshl(c, p, q),
                        Bin::LShr => mk_bvlshr(c, p, q),
                        Bin::AShr => mk_bvashr(c, p, q),
                        Bin::And => mk_bvand(c, p, q),
                        Bin::Or => mk_bvor(c, p, q),
                        Bin::Xor => mk_bvxor(c, p, q),
                    }
                }
                N::Cmp(op, x, y) => {
                    let (p, q) = (self.term(a, x), self.term(a, y));
                    let b = match op {
                        Cmp::Eq => mk_eq(c, p, q),
                        Cmp::Ult => mk_bvult(c, p, q),
                        Cmp::Slt => mk_bvslt(c, p, q),
                    };
                    let so = self.sort(1);
                    let one = mk_numeral(c, c"1".as_ptr(), so);
                    let zero = mk_numeral(c, c"0".as_ptr(), so);
                    mk_ite(c, b, one, zero)
                }
                N::Not(x) => {
                    let p = self.term(a, x);
                    mk_bvnot(c, p)
                }
                N::Ite(k, x, y) => {
                    let b = self.boolean(a, k);
                    let (p, q) = (self.term(a, x), self.term(a, y));
                    mk_ite(c, b, p, q)
                }
                N::ZExt(x) => {
                    let p = self.term(a, x);
                    mk_zero_ext(c, (w - a.w(x)) as c_uint, p)
                }
                N::SExt(x) => {
                    let p = self.term(a, x);
                    mk_sign_ext(c, (w - a.w(x)) as c_uint, p)
                }
                N::Extract(x, lo) => {
                    let p = self.term(a, x);
                    mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, p)
                }
                N::Concat(h, l) => {
                    let (p, q) = (self.term(a, h), self.term(a, l));
                    mk_concat(c, p, q)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.ast[i] = r;
        r
    }

    fn boolean(&mut self, a: &Arena, id: Id) -> P {
        if let Some(&p) = self.bools.get(&id) {
            return p;
        }
        let c = self.c;
        let p = unsafe {
            match a.n(id) {
                N::Not(x) => {
                    let p = self.boolean(a, x);
                    let r = mk_not(c, p);
                    Z3_inc_ref(c, r);
                    r
                }
                N::Cmp(op, x, y) => {
                    let (p, q) = (self.term(a, x), self.term(a, y));
                    let r = match op {
                        Cmp::Eq => mk_eq(c, p, q),
                        Cmp::Ult => mk_bvult(c, p, q),
                        Cmp::Slt => mk_bvslt(c, p, q),
                    };
                    Z3_inc_ref(c, r);
                    r
                }
                _ => {
                    let t = self.term(a, id);
                    let so = self.sort(1);
                    let one = mk_numeral(c, c"1".as_ptr(), so);
                    Z3_inc_ref(c, one);
                    let r = mk_eq(c, t, one);
                    r
                }
            }
        };
        self.bools.insert(id, p);
        p
    }

    /// Is the conjunction satisfiable?  On Sat the values of the variables in `vars` are stored
    /// in `model`.
    pub fn check(&mut self, a: &Arena, conj: &[Id], vars: u128, model: &mut [u8]) -> Sat {
        let t0 = std::time::Instant::now();
        let c = self.c;
        let r;
        unsafe {
            Z3_solver_push(c, self.s);
            for &e in conj {
                let b = self.boolean(a, e);
                Z3_solver_assert(c, self.s, b);
            }
            let k = Z3_solver_check(c, self.s);
            r = match k {
                1 => Sat::Sat,
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            if r == Sat::Sat {
                let m = Z3_solver_get_model(c, self.s);
                Z3_model_inc_ref(c, m);
                let mut vs = vars;
                while vs != 0 {
                    let k = vs.trailing_zeros();
                    vs &= vs - 1;
                    let name = CString::new(format!("b{k}")).unwrap();
                    let so = self.sort(8);
                    let t = Z3_mk_const(c, Z3_mk_string_symbol(c, name.as_ptr()), so);
                    Z3_inc_ref(c, t);
                    let mut out: P = std::ptr::null_mut();
                    let mut v = 0u64;
                    if Z3_model_eval(c, m, t, true, &mut out) {
                        Z3_inc_ref(c, out);
                        Z3_get_numeral_uint64(c, out, &mut v);
                        Z3_dec_ref(c, out);
                    }
                    Z3_dec_ref(c, t);
                    model[k as usize] = v as u8;
                }
                Z3_model_dec_ref(c, m);
            }
            self.stats.queries += 1;
            if self.dump_every > 0 && self.stats.queries % self.dump_every == 0 && self.dump.len() < 200 {
                let s = CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy().into_owned();
                self.dump.push((s, r == Sat::Sat));
            }
            Z3_solver_pop(c, self.s, 1);
        }
        match r {
            Sat::Sat => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown => self.stats.unknown += 1,
        }
        self.stats.nanos += t0.elapsed().as_nanos() as u64;
        r
    }
}
