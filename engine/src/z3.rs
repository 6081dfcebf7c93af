//! Minimal binding to libz3: translation of expressions and satisfiability queries.
use crate::expr::*;
use crate::ir::{Bin, Pred};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint(c: P, a: P, u: *mut c_uint) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
}

pub struct Z3 {
    c: P,
    s: P,
    vars: Vec<P>,
    bv: FxMap<E, P>,   // as bit-vector
    bo: FxMap<E, P>,   // as boolean (width 1)
    doms: FxMap<(u8, Dom), P>,
    splits: FxMap<(u8, Dom, E), ()>,
    ranges: FxMap<(u8, u8, u8), P>,
    cache: FxMap<Vec<u64>, Option<Vec<(u8, u8)>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub time_us: u64,
    pub err: Option<String>,
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), 60_000);
            Z3_solver_set_params(c, s, p);
            let mut vars = vec![];
            let b8 = Z3_mk_bv_sort(c, 8);
            for i in 0..64 {
                let n = CString::new(format!("b{}", i)).unwrap();
                vars.push(Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), b8));
            }
            Z3 {
                c,
                s,
                vars,
                bv: Default::default(),
                bo: Default::default(),
                doms: Default::default(),
                splits: Default::default(),
                ranges: Default::default(),
                cache: Default::default(),
                queries: 0,
                sat: 0,
                unsat: 0,
                cached: 0,
                time_us: 0,
                err: None,
            }
        }
    }
    fn num(&self, v: u64, w: u32) -> P {
        unsafe { Z3_mk_unsigned_int64(self.c, v, Z3_mk_bv_sort(self.c, w)) }
    }
    fn range(&mut self, var: u8, lo: u8, hi: u8) -> P {
        if let Some(p) = self.ranges.get(&(var, lo, hi)) {
            return *p;
        }
        let r = unsafe {
            let x = self.vars[var as usize];
            if lo == hi {
                Z3_mk_eq(self.c, x, self.num(lo as u64, 8))
            } else if lo == 0 {
                Z3_mk_bvule(self.c, x, self.num(hi as u64, 8))
            } else if hi == 255 {
                Z3_mk_bvule(self.c, self.num(lo as u64, 8), x)
            } else {
                let a = [Z3_mk_bvule(self.c, self.num(lo as u64, 8), x), Z3_mk_bvule(self.c, x, self.num(hi as u64, 8))];
                Z3_mk_and(self.c, 2, a.as_ptr())
            }
        };
        self.ranges.insert((var, lo, hi), r);
        r
    }
    pub fn dom(&mut self, var: u8, d: &Dom) -> P {
        if let Some(p) = self.doms.get(&(var, *d)) {
            return *p;
        }
        let mut parts = vec![];
        let mut i = 0usize;
        while i < 256 {
            if dom_has(d, i) {
                let st = i;
                while i < 256 && dom_has(d, i) {
                    i += 1;
                }
                parts.push(self.range(var, st as u8, (i - 1) as u8));
            } else {
                i += 1;
            }
        }
        let r = unsafe {
            match parts.len() {
                0 => Z3_mk_false(self.c),
                1 => {
                    if *d == [!0; 4] {
                        Z3_mk_true(self.c)
                    } else {
                        parts[0]
                    }
                }
                n => Z3_mk_or(self.c, n as c_uint, parts.as_ptr()),
            }
        };
        self.doms.insert((var, *d), r);
        r
    }
    fn b2v(&mut self, b: P) -> P {
        unsafe { Z3_mk_ite(self.c, b, self.num(1, 1), self.num(0, 1)) }
    }
    /// Boolean view of a width-1 expression.
    pub fn boolean(&mut self, p: &Pool, e: E) -> P {
        if let Some(x) = self.bo.get(&e) {
            return *x;
        }
        let c = self.c;
        let r = unsafe {
            match &p.n[e as usize].node {
                Node::Const(k) => {
                    if *k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Node::Cmp(op, a, b) => {
                    let (x, y) = (self.term(p, *a), self.term(p, *b));
                    match op {
                        Pred::Eq => Z3_mk_eq(c, x, y),
                        Pred::Ne => Z3_mk_not(c, Z3_mk_eq(c, x, y)),
                        Pred::Ult => Z3_mk_bvult(c, x, y),
                        Pred::Ule => Z3_mk_bvule(c, x, y),
                        Pred::Ugt => Z3_mk_bvult(c, y, x),
                        Pred::Uge => Z3_mk_bvule(c, y, x),
                        Pred::Slt => Z3_mk_bvslt(c, x, y),
                        Pred::Sle => Z3_mk_bvsle(c, x, y),
                        Pred::Sgt => Z3_mk_bvslt(c, y, x),
                        Pred::Sge => Z3_mk_bvsle(c, y, x),
                    }
                }
                Node::Bin(op, a, b) if matches!(op, Bin::And | Bin::Or | Bin::Xor) => {
                    let x = [self.boolean(p, *a), self.boolean(p, *b)];
                    match op {
                        Bin::And => Z3_mk_and(c, 2, x.as_ptr()),
                        Bin::Or => Z3_mk_or(c, 2, x.as_ptr()),
                        _ => Z3_mk_xor(c, x[0], x[1]),
                    }
                }
                Node::Ite(k, a, b) => {
                    let k = self.boolean(p, *k);
                    let (x, y) = (self.boolean(p, *a), self.boolean(p, *b));
                    Z3_mk_ite(c, k, x, y)
                }
                _ => {
                    let t = self.term(p, e);
                    Z3_mk_eq(c, t, self.num(1, 1))
                }
            }
        };
        self.bo.insert(e, r);
        r
    }
    pub fn term(&mut self, p: &Pool, e: E) -> P {
        if let Some(x) = self.bv.get(&e) {
            return *x;
        }
        let c = self.c;
        let w = p.w(e) as u32;
        let r = unsafe {
            match &p.n[e as usize].node {
                Node::Nil => panic!("nil"),
                Node::Const(k) => self.num(*k, w),
                Node::Var(i) => self.vars[*i as usize],
                Node::Tab(v, t) => {
                    // ITE chain over maximal runs of equal values
                    let mut r = self.num(t[255], w);
                    let mut i = 255usize;
                    while i > 0 {
                        if t[i - 1] != t[i] {
                            let cond = Z3_mk_bvule(c, self.vars[*v as usize], self.num(i as u64 - 1, 8));
                            r = Z3_mk_ite(c, cond, self.num(t[i - 1], w), r);
                            // values below i-1 are handled by later iterations
                        }
                        i -= 1;
                    }
                    r
                }
                Node::Cmp(..) => {
                    let b = self.boolean(p, e);
                    self.b2v(b)
                }
                Node::Bin(op, a, b) => {
                    if w == 1 && matches!(op, Bin::And | Bin::Or | Bin::Xor) {
                        let b = self.boolean(p, e);
                        self.b2v(b)
                    } else {
                        let (x, y) = (self.term(p, *a), self.term(p, *b));
                        match op {
                            Bin::Add => Z3_mk_bvadd(c, x, y),
                            Bin::Sub => Z3_mk_bvsub(c, x, y),
                            Bin::Mul => Z3_mk_bvmul(c, x, y),
                            Bin::UDiv => Z3_mk_bvudiv(c, x, y),
                            Bin::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Bin::URem => Z3_mk_bvurem(c, x, y),
                            Bin::SRem => Z3_mk_bvsrem(c, x, y),
                            Bin::Shl => Z3_mk_bvshl(c, x, y),
                            Bin::LShr => Z3_mk_bvlshr(c, x, y),
                            Bin::AShr => Z3_mk_bvashr(c, x, y),
                            Bin::And => Z3_mk_bvand(c, x, y),
                            Bin::Or => Z3_mk_bvor(c, x, y),
                            Bin::Xor => Z3_mk_bvxor(c, x, y),
                        }
                    }
                }
                Node::Zext(a) => {
                    let x = self.term(p, *a);
                    Z3_mk_zero_ext(c, w - p.w(*a) as u32, x)
                }
                Node::Sext(a) => {
                    let x = self.term(p, *a);
                    Z3_mk_sign_ext(c, w - p.w(*a) as u32, x)
                }
                Node::Extract(a, lo) => {
                    let x = self.term(p, *a);
                    Z3_mk_extract(c, *lo as u32 + w - 1, *lo as u32, x)
                }
                Node::Bytes(v) => {
                    let mut r = self.term(p, v[0]);
                    for x in &v[1..] {
                        let t = self.term(p, *x);
                        r = Z3_mk_concat(c, t, r);
                    }
                    r
                }
                Node::Ite(k, a, b) => {
                    let k = self.boolean(p, *k);
                    let (x, y) = (self.term(p, *a), self.term(p, *b));
                    Z3_mk_ite(c, k, x, y)
                }
            }
        };
        self.bv.insert(e, r);
        r
    }
    fn check(&mut self) -> Option<bool> {
        let t = std::time::Instant::now();
        let r = unsafe { Z3_solver_check(self.c, self.s) };
        self.time_us += t.elapsed().as_micros() as u64;
        self.queries += 1;
        match r {
            1 => {
                self.sat += 1;
                Some(true)
            }
            -1 => {
                self.unsat += 1;
                Some(false)
            }
            _ => {
                self.err = Some("solver returned unknown".into());
                None
            }
        }
    }
    /// Prove that splitting the domain of a variable by a single-variable condition gives exactly `yes` and `no`:
    /// dom(v) => (cond(v) <=> yes(v)), with yes and no a partition of dom.
    pub fn prove_split(&mut self, p: &Pool, var: u8, d: &Dom, e: E, yes: &Dom) {
        if self.splits.contains_key(&(var, *d, e)) {
            self.cached += 1;
            return;
        }
        self.splits.insert((var, *d, e), ());
        unsafe {
            let a = self.dom(var, d);
            let y = self.dom(var, yes);
            let b = self.boolean(p, e);
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, a);
            Z3_solver_assert(self.c, self.s, Z3_mk_xor(self.c, b, y));
            match self.check() {
                Some(false) => {}
                Some(true) => self.err = Some(format!("solver refutes the value table of {}", p.show(e, 6))),
                None => {}
            }
            Z3_solver_pop(self.c, self.s, 1);
        }
    }
    /// Satisfiability of domains and constraints; a model for the variables on success.
    pub fn solve(&mut self, p: &Pool, doms: &[(u8, Dom)], cons: &[E]) -> Option<Vec<(u8, u8)>> {
        let mut key: Vec<u64> = Vec::with_capacity(doms.len() * 5 + cons.len() + 1);
        for (v, d) in doms {
            key.push(*v as u64);
            key.extend_from_slice(d);
        }
        key.push(!0);
        let mut cs: Vec<E> = cons.to_vec();
        cs.sort();
        key.extend(cs.iter().map(|x| *x as u64));
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return r.clone();
        }
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for (v, d) in doms {
                let a = self.dom(*v, d);
                Z3_solver_assert(self.c, self.s, a);
            }
            for e in cons {
                let a = self.boolean(p, *e);
                Z3_solver_assert(self.c, self.s, a);
            }
            let r = match self.check() {
                Some(true) => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for (v, _) in doms {
                        let mut a: P = std::ptr::null_mut();
                        let mut u: c_uint = 0;
                        if Z3_model_eval(self.c, m, self.vars[*v as usize], true, &mut a) && Z3_get_numeral_uint(self.c, a, &mut u) {
                            out.push((*v, u as u8));
                        } else {
                            self.err = Some("model".into());
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Some(out)
                }
                _ => None,
            };
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        self.cache.insert(key, r.clone());
        r
    }
}
