//! Minimal FFI binding to libz3 and the translation of terms to Z3 bit-vectors.
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Debug)]
pub enum Res {
    Unsat,
    Sat(Vec<(u32, u8)>),
    Unknown,
}

pub struct Z3 {
    ctx: P,
    solver: P,
    memo: Vec<P>,  // bit-vector ast per term
    bmemo: Vec<P>, // boolean ast per width-1 term
    sorts: HashMap<u16, P>,
    pub queries: u64,
    pub time: f64,
    pub max_time: f64,
    pub sat: u64,
    pub unsat: u64,
    dump: Option<String>,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let solver = if std::env::var("SYMEX_SOLVER").as_deref() == Ok("full") { Z3_mk_solver(ctx) } else { Z3_mk_simple_solver(ctx) };
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            let k = CString::new("random_seed").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), 1);
            Z3_solver_set_params(ctx, solver, p);
            Z3 {
                ctx,
                solver,
                memo: vec![],
                bmemo: vec![],
                sorts: HashMap::new(),
                queries: 0,
                time: 0.0,
                max_time: 0.0,
                sat: 0,
                unsat: 0,
                dump: std::env::var("SYMEX_DUMP_SMT").ok(),
            }
        }
    }

    fn sort(&mut self, w: u16) -> P {
        let ctx = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(ctx, w as c_uint) })
    }
    fn num(&mut self, v: u128, w: u16) -> P {
        let s = self.sort(w);
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let c = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, c.as_ptr(), s)
            }
        }
    }

    /// boolean ast for a width-1 term
    fn tb(&mut self, ar: &Arena, t: T) -> P {
        if self.bmemo.len() < ar.nodes.len() {
            self.bmemo.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        if !self.bmemo[t as usize].is_null() {
            return self.bmemo[t as usize];
        }
        let n = ar.nodes[t as usize];
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::And | Op::Or => {
                    let v = [self.tb(ar, n.a), self.tb(ar, n.b)];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Op::Xor => {
                    if ar.as_const(n.b) == Some(1) {
                        let x = self.tb(ar, n.a);
                        Z3_mk_not(c, x)
                    } else {
                        let (x, y) = (self.tb(ar, n.a), self.tb(ar, n.b));
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (x, y) = (self.t(ar, n.a), self.t(ar, n.b));
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, x, y),
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                Op::Ite => {
                    let (x, y, z) = (self.tb(ar, n.a), self.tb(ar, n.b), self.tb(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Table => {
                    // a set of byte values, as a disjunction of ranges
                    let tab = ar.tables[n.b as usize].clone();
                    let v = self.t(ar, n.a);
                    self.ranges(v, &|i| tab[i] != 0)
                }
                _ => {
                    let x = self.t(ar, t);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.bmemo[t as usize] = r;
        r
    }

    /// The boolean function `f` of the bits of the byte `v`, as a reduced decision diagram.
    fn ranges(&mut self, v: P, f: &dyn Fn(usize) -> bool) -> P {
        let mut set = [false; 256];
        for (i, x) in set.iter_mut().enumerate() {
            *x = f(i);
        }
        let mut memo = HashMap::new();
        self.bdd(v, &set, &mut memo)
    }
    fn bdd(&mut self, v: P, set: &[bool], memo: &mut HashMap<Vec<bool>, P>) -> P {
        let c = self.ctx;
        if set.iter().all(|x| *x == set[0]) {
            return unsafe { if set[0] { Z3_mk_true(c) } else { Z3_mk_false(c) } };
        }
        if let Some(r) = memo.get(set) {
            return *r;
        }
        let h = set.len() / 2;
        let (lo, hi) = set.split_at(h);
        let r = if lo == hi {
            self.bdd(v, lo, memo)
        } else {
            let bit = h.trailing_zeros();
            let l = self.bdd(v, lo, memo);
            let g = self.bdd(v, hi, memo);
            unsafe {
                let one = self.num(1, 1);
                let b = Z3_mk_eq(c, Z3_mk_extract(c, bit, bit, v), one);
                Z3_mk_ite(c, b, g, l)
            }
        };
        memo.insert(set.to_vec(), r);
        r
    }

    fn t(&mut self, ar: &Arena, t: T) -> P {
        if self.memo.len() < ar.nodes.len() {
            self.memo.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        if !self.memo[t as usize].is_null() {
            return self.memo[t as usize];
        }
        let n = ar.nodes[t as usize];
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Var => {
                    let s = CString::new(format!("b{}", n.a)).unwrap();
                    let so = self.sort(8);
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), so)
                }
                _ if n.w == 1 && !matches!(n.op, Op::Extract) => {
                    let b = self.tb(ar, t);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, b, o, z)
                }
                Op::Table => {
                    let tab = ar.tables[n.b as usize].clone();
                    let v = self.t(ar, n.a);
                    // bit by bit, each a decision diagram over the bits of the byte
                    let mut memo = HashMap::new();
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    let mut r: P = std::ptr::null_mut();
                    for i in 0..n.w as u32 {
                        let set: Vec<bool> = tab.iter().map(|x| i < 64 && (*x >> i) & 1 == 1).collect();
                        let b = if set.iter().all(|x| *x == set[0]) {
                            if set[0] { o } else { z }
                        } else {
                            let b = self.bdd(v, &set, &mut memo);
                            Z3_mk_ite(c, b, o, z)
                        };
                        r = if r.is_null() { b } else { Z3_mk_concat(c, b, r) };
                    }
                    r
                }
                Op::Extract => {
                    let x = self.t(ar, n.a);
                    Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, x)
                }
                Op::ZExt | Op::SExt => {
                    let x = self.t(ar, n.a);
                    let d = (n.w - ar.w(n.a)) as c_uint;
                    if n.op == Op::ZExt {
                        Z3_mk_zero_ext(c, d, x)
                    } else {
                        Z3_mk_sign_ext(c, d, x)
                    }
                }
                Op::Ite => {
                    let (x, y, z) = (self.tb(ar, n.a), self.t(ar, n.b), self.t(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let (x, y) = (self.t(ar, n.a), self.t(ar, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        o => unreachable!("{:?}", o),
                    }
                }
            }
        };
        self.memo[t as usize] = r;
        r
    }

    /// Satisfiability of the conjunction; on sat the values of the listed variables.
    pub fn check(&mut self, ar: &mut Arena, cs: &[T], vars: &VarSet) -> Res {
        let st = Instant::now();
        self.queries += 1;
        let (c, s) = (self.ctx, self.solver);
        let mut vl = vec![];
        for (i, wd) in vars.iter().enumerate() {
            let mut x = *wd;
            while x != 0 {
                vl.push((i * 64) as u32 + x.trailing_zeros());
                x &= x - 1;
            }
        }
        let vt: Vec<T> = vl.iter().map(|v| ar.var(*v as usize)).collect();
        let res = unsafe {
            Z3_solver_push(c, s);
            for t in cs {
                let b = self.tb(ar, *t);
                Z3_solver_assert(c, s, b);
            }
            if let Some(d) = &self.dump {
                let txt = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{}/{}-{}.smt2", d, std::process::id(), self.queries), format!("{}(check-sat)\n", txt));
            }
            let r = match Z3_solver_check(c, s) {
                -1 => Res::Unsat,
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for (v, t) in vl.iter().zip(vt.iter()) {
                        let a = self.t(ar, *t);
                        let mut o: P = std::ptr::null_mut();
                        let ok = Z3_model_eval(c, m, a, true, &mut o);
                        assert!(ok);
                        let mut x = 0u64;
                        assert!(Z3_get_numeral_uint64(c, o, &mut x));
                        out.push((*v, x as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                _ => Res::Unknown,
            };
            Z3_solver_pop(c, s, 1);
            r
        };
        if let (Some(d), r) = (&self.dump, &res) {
            let _ = std::fs::write(format!("{}/{}-{}.res", d, std::process::id(), self.queries), match r { Res::Unsat => "unsat", Res::Sat(_) => "sat", _ => "unknown" });
        }
        let d = st.elapsed().as_secs_f64();
        self.time += d;
        if d > self.max_time {
            self.max_time = d;
        }
        match res {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            _ => {}
        }
        res
    }
}
