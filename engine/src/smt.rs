//! Z3 back end: translation of expressions, query slicing and caching.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

#[derive(Default, Clone)]
pub struct Stats {
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_ns: u128,
    pub cache_hits: u64,
    pub domain_decided: u64,
    pub model_decided: u64,
    pub verdict_queries: u64,
    pub unknown: u64,
}

pub struct Smt {
    c: P,
    s: P,
    ast: FxMap<E, P>,
    bv8: P,
    cache: FxMap<Vec<E>, Option<Vec<(u8, u8)>>>,
    pub st: Stats,
    pub use_domain: bool,
    pub dump: Option<std::fs::File>,
    pub dump_left: u32,
}

/// per query; a query without an answer is reported as an error of its path
const TIMEOUT_MS: u32 = 10_000;

pub enum Res {
    Sat(Vec<(u8, u8)>),
    Unsat,
}

impl Smt {
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
    }
    pub fn new() -> Smt {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let k = CString::new("timeout").unwrap();
            let v = CString::new(TIMEOUT_MS.to_string()).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let bv8 = Z3_mk_bv_sort(c, 8);
            Smt {
                c,
                s,
                ast: FxMap::default(),
                bv8,
                cache: FxMap::default(),
                st: Stats::default(),
                use_domain: true,
                dump: None,
                dump_left: 0,
            }
        }
    }
    unsafe fn bv(&mut self, p: &Pool, e: E) -> P {
        let a = self.tr(p, e);
        if p.w(e) == 1 {
            let s = Z3_mk_bv_sort(self.c, 1);
            let one = Z3_mk_unsigned_int64(self.c, 1, s);
            let z = Z3_mk_unsigned_int64(self.c, 0, s);
            Z3_mk_ite(self.c, a, one, z)
        } else {
            a
        }
    }
    unsafe fn num(&mut self, k: u128, w: u8) -> P {
        let s = Z3_mk_bv_sort(self.c, w as c_uint);
        if k <= u64::MAX as u128 {
            Z3_mk_unsigned_int64(self.c, k as u64, s)
        } else {
            let t = CString::new(k.to_string()).unwrap();
            Z3_mk_numeral(self.c, t.as_ptr(), s)
        }
    }
    unsafe fn tbl(&mut self, t: &[u128], w: u8, idx: P, iw: u8, base: usize) -> P {
        if t.iter().all(|x| *x == t[0]) {
            return if w == 1 {
                if t[0] == 1 {
                    Z3_mk_true(self.c)
                } else {
                    Z3_mk_false(self.c)
                }
            } else {
                self.num(t[0], w)
            };
        }
        let h = t.len() / 2;
        let l = self.tbl(&t[..h], w, idx, iw, base);
        let r = self.tbl(&t[h..], w, idx, iw, base + h);
        let k = self.num((base + h) as u128, iw);
        let c = Z3_mk_bvult(self.c, idx, k);
        Z3_mk_ite(self.c, c, l, r)
    }
    /// width-1 expressions become Bool, others bit-vectors
    unsafe fn tr(&mut self, p: &Pool, e: E) -> P {
        if let Some(a) = self.ast.get(&e) {
            return *a;
        }
        let n = p.n(e);
        let c = self.c;
        let r = match n.op {
            Op::Const => {
                if n.w == 1 {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                } else {
                    self.num(n.k, n.w)
                }
            }
            Op::Var => {
                let s = Z3_mk_int_symbol(c, n.k as c_int);
                Z3_mk_const(c, s, self.bv8)
            }
            Op::Ite => {
                let x = self.tr(p, n.a);
                let y = self.tr(p, n.b);
                let z = self.tr(p, n.c);
                Z3_mk_ite(c, x, y, z)
            }
            Op::Concat => {
                let x = self.bv(p, n.a);
                let y = self.bv(p, n.b);
                Z3_mk_concat(c, x, y)
            }
            Op::Extract => {
                let x = self.bv(p, n.a);
                let r = Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, x);
                self.unbv(r, n.w)
            }
            Op::SExt => {
                let x = self.bv(p, n.a);
                Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as c_uint, x)
            }
            Op::Tbl => {
                let x = self.bv(p, n.a);
                let iw = p.w(n.a);
                let t = p.tables[n.k as usize].clone();
                // entries beyond the table are excluded by the bounds check made at creation
                self.tbl(&t, n.w, x, iw, 0)
            }
            Op::And | Op::Or | Op::Xor | Op::Eq if p.w(n.a) == 1 => {
                let x = self.tr(p, n.a);
                let y = self.tr(p, n.b);
                let a = [x, y];
                match n.op {
                    Op::And => Z3_mk_and(c, 2, a.as_ptr()),
                    Op::Or => Z3_mk_or(c, 2, a.as_ptr()),
                    Op::Xor => {
                        if p.cval(n.b) == Some(1) {
                            Z3_mk_not(c, x)
                        } else {
                            Z3_mk_xor(c, x, y)
                        }
                    }
                    _ => Z3_mk_eq(c, x, y),
                }
            }
            op => {
                let x = self.bv(p, n.a);
                let y = self.bv(p, n.b);
                let r = match op {
                    Op::Add => Z3_mk_bvadd(c, x, y),
                    Op::Sub => Z3_mk_bvsub(c, x, y),
                    Op::Mul => Z3_mk_bvmul(c, x, y),
                    Op::UDiv => Z3_mk_bvudiv(c, x, y),
                    Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                    Op::URem => Z3_mk_bvurem(c, x, y),
                    Op::SRem => Z3_mk_bvsrem(c, x, y),
                    Op::And => Z3_mk_bvand(c, x, y),
                    Op::Or => Z3_mk_bvor(c, x, y),
                    Op::Xor => Z3_mk_bvxor(c, x, y),
                    Op::Shl => Z3_mk_bvshl(c, x, y),
                    Op::LShr => Z3_mk_bvlshr(c, x, y),
                    Op::AShr => Z3_mk_bvashr(c, x, y),
                    Op::Eq => Z3_mk_eq(c, x, y),
                    Op::Ult => Z3_mk_bvult(c, x, y),
                    Op::Ule => Z3_mk_bvule(c, x, y),
                    Op::Slt => Z3_mk_bvslt(c, x, y),
                    Op::Sle => Z3_mk_bvsle(c, x, y),
                    _ => unreachable!(),
                };
                if n.w == 1 && !matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
                    self.unbv(r, 1)
                } else {
                    r
                }
            }
        };
        self.ast.insert(e, r);
        r
    }
    unsafe fn unbv(&mut self, r: P, w: u8) -> P {
        if w != 1 {
            return r;
        }
        let s = Z3_mk_bv_sort(self.c, 1);
        let one = Z3_mk_unsigned_int64(self.c, 1, s);
        Z3_mk_eq(self.c, r, one)
    }
    /// Satisfiability of a conjunction; a model for the bytes it mentions.
    pub fn check(&mut self, p: &Pool, cs: &[E]) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        let t0 = std::time::Instant::now();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            let mut vm: Mask = 0;
            for e in &key {
                let a = self.tr(p, *e);
                Z3_solver_assert(self.c, self.s, a);
                vm |= p.vars[*e as usize];
            }
            if self.dump_left > 0 {
                if let Some(f) = &mut self.dump {
                    use std::io::Write;
                    let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s));
                    let _ = writeln!(f, ";;QUERY\n{}", s.to_string_lossy());
                }
            }
            let k = Z3_solver_check(self.c, self.s);
            let r = match k {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for i in 0..MAXVARS {
                        if vm >> i & 1 == 1 {
                            let s = Z3_mk_int_symbol(self.c, i as c_int);
                            let v = Z3_mk_const(self.c, s, self.bv8);
                            let mut o: P = std::ptr::null_mut();
                            assert!(Z3_model_eval(self.c, m, v, true, &mut o));
                            let mut x = 0u64;
                            assert!(Z3_get_numeral_uint64(self.c, o, &mut x));
                            out.push((i as u8, x as u8));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Some(out)
                }
                -1 => None,
                _ => {
                    self.st.unknown += 1;
                    None
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            if self.dump_left > 0 {
                self.dump_left -= 1;
                if let Some(f) = &mut self.dump {
                    use std::io::Write;
                    let _ = writeln!(f, ";;RESULT {}", if r.is_some() { "sat" } else { "unsat" });
                }
            }
            r
        };
        self.st.z3_ns += t0.elapsed().as_nanos();
        self.st.z3_queries += 1;
        if r.is_some() {
            self.st.z3_sat += 1
        } else {
            self.st.z3_unsat += 1
        }
        self.cache.insert(key, r.clone());
        match r {
            Some(m) => Res::Sat(m),
            None => Res::Unsat,
        }
    }
}
