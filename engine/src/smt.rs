//! Z3 through its C API (loaded with dlopen, so nothing is linked at build time).
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}
type P = *mut c_void;
macro_rules! api {
    ($($n:ident : fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $($n: unsafe extern "C" fn($($a),*) $(-> $r)?,)* }
        impl Api {
            fn load(h: P) -> Result<Api, String> {
                unsafe {
                    Ok(Api { $($n: {
                        let s = dlsym(h, CString::new(stringify!($n)).unwrap().as_ptr());
                        if s.is_null() { return Err(format!("missing {}", stringify!($n))); }
                        std::mem::transmute(s)
                    },)* })
                }
            }
        }
    }
}
api! {
    Z3_solver_to_string: fn(P, P) -> *const std::os::raw::c_char;
    Z3_mk_config: fn() -> P;
    Z3_set_param_value: fn(P, *const c_char, *const c_char);
    Z3_mk_context: fn(P) -> P;
    Z3_set_error_handler: fn(P, *const c_void);
    Z3_get_error_code: fn(P) -> c_uint;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_dec_ref: fn(P, P);
    Z3_solver_push: fn(P, P);
    Z3_solver_pop: fn(P, P, c_uint);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_check_assumptions: fn(P, P, c_uint, *const P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_set_params: fn(P, P, P);
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_mk_bool_sort: fn(P) -> P;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_unsigned_int64: fn(P, u64, P) -> P;
    Z3_get_numeral_uint64: fn(P, P, *mut u64) -> bool;
    Z3_get_numeral_string: fn(P, P) -> *const c_char;
    Z3_get_bool_value: fn(P, P) -> c_int;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvule: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_bvsle: fn(P, P, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_inc_ref: fn(P, P);
    Z3_dec_ref: fn(P, P);
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_get_full_version: fn() -> *const c_char;
    Z3_solver_get_reason_unknown: fn(P, P) -> *const c_char;
}

unsafe extern "C" fn on_err(_c: P, code: c_uint) {
    eprintln!("z3 error code {code}");
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Smt {
    a: Api,
    c: P,
    s: P,
    stack: Vec<E>, // asserted path condition
    cache: HashMap<E, P>,
    bools: P,
    pub timeout_ms: u32,
    pub queries: u64,
    pub q_sat: u64,
    pub q_unsat: u64,
    pub q_unknown: u64,
    pub time: f64,
    pub aux_queries: u64,
    pub oneshot: u64,
    slow: u32,
    skipped: u32,
    since: u32,
    pub version: String,
}

impl Smt {
    pub fn new(timeout_ms: u32) -> Result<Smt, String> {
        unsafe {
            let cands = [
                std::env::var("SYMX_Z3").unwrap_or_default(),
                "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".to_string(),
                "libz3.so".to_string(),
                "/usr/lib/x86_64-linux-gnu/libz3.so".to_string(),
                "libz3.so.4".to_string(),
            ];
            let mut h: P = std::ptr::null_mut();
            for f in cands {
                if f.is_empty() {
                    continue;
                }
                h = dlopen(CString::new(f).unwrap().as_ptr(), 2);
                if !h.is_null() {
                    break;
                }
            }
            if h.is_null() {
                return Err("libz3 not found".into());
            }
            let a = Api::load(h)?;
            let version = CStr::from_ptr((a.Z3_get_full_version)()).to_string_lossy().into_owned();
            let cfg = (a.Z3_mk_config)();
            let c = (a.Z3_mk_context)(cfg);
            (a.Z3_set_error_handler)(c, on_err as *const c_void);
            let bools = (a.Z3_mk_bool_sort)(c);
            let mut s = Smt {
                a,
                c,
                s: std::ptr::null_mut(),
                stack: vec![],
                cache: HashMap::new(),
                bools,
                timeout_ms,
                queries: 0,
                q_sat: 0,
                q_unsat: 0,
                q_unknown: 0,
                time: 0.0,
                aux_queries: 0,
                oneshot: 0,
                slow: 0,
                skipped: 0,
                since: 0,
                version,
            };
            let t = s.inc_timeout();
            s.s = s.mk_solver(c"QF_FD", t);
            Ok(s)
        }
    }
    fn inc_timeout(&self) -> u32 {
        self.timeout_ms.min(60)
    }
    fn mk_solver(&mut self, logic: &CStr, timeout_ms: u32) -> P {
        unsafe {
            let sym = (self.a.Z3_mk_string_symbol)(self.c, logic.as_ptr());
            let s = (self.a.Z3_mk_solver_for_logic)(self.c, sym);
            (self.a.Z3_solver_inc_ref)(self.c, s);
            let p = (self.a.Z3_mk_params)(self.c);
            (self.a.Z3_params_inc_ref)(self.c, p);
            let k = (self.a.Z3_mk_string_symbol)(self.c, c"timeout".as_ptr());
            (self.a.Z3_params_set_uint)(self.c, p, k, timeout_ms);
            (self.a.Z3_solver_set_params)(self.c, s, p);
            s
        }
    }
    fn bv_sort(&self, w: u32) -> P {
        unsafe { (self.a.Z3_mk_bv_sort)(self.c, w) }
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 {
                (self.a.Z3_mk_unsigned_int64)(self.c, v as u64, self.bv_sort(w))
            } else {
                let s = CString::new(v.to_string()).unwrap();
                (self.a.Z3_mk_numeral)(self.c, s.as_ptr(), self.bv_sort(w))
            }
        }
    }
    fn as_bv1(&self, b: P) -> P {
        unsafe { (self.a.Z3_mk_ite)(self.c, b, self.num(1, 1), self.num(0, 1)) }
    }
    /// Translation; width-1 expressions become Bool
    pub fn tr(&mut self, x: &Ex, e: E) -> P {
        if let Some(&p) = self.cache.get(&e) {
            return p;
        }
        let mut st = vec![e];
        while let Some(&t) = st.last() {
            if self.cache.contains_key(&t) {
                st.pop();
                continue;
            }
            let inf = &x.v[t as usize];
            let kids: [Option<E>; 3] = match inf.n {
                N::C(_) | N::Sym(_) => [None; 3],
                N::B(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Ule(a, b) | N::Slt(a, b) | N::Sle(a, b) | N::Cat(a, b) => [Some(a), Some(b), None],
                N::Ite(a, b, c) => [Some(a), Some(b), Some(c)],
                N::Z(a) | N::S(a) | N::Ex(a, _) => [Some(a), None, None],
            };
            let mut ready = true;
            for k in kids.into_iter().flatten() {
                if !self.cache.contains_key(&k) {
                    st.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let w = inf.w;
            let g = |s: &Smt, k: E| s.cache[&k];
            let gb = |s: &Smt, k: E| if x.w(k) == 1 { s.as_bv1(s.cache[&k]) } else { s.cache[&k] };
            let r = unsafe {
                let a = &self.a;
                let c = self.c;
                match inf.n {
                    N::C(v) => {
                        if w == 1 {
                            if v == 1 { (a.Z3_mk_true)(c) } else { (a.Z3_mk_false)(c) }
                        } else {
                            self.num(v, w)
                        }
                    }
                    N::Sym(s) => {
                        let nm = CString::new(format!("s{s}")).unwrap();
                        let sy = (a.Z3_mk_string_symbol)(c, nm.as_ptr());
                        let so = if w == 1 { self.bools } else { self.bv_sort(w) };
                        (a.Z3_mk_const)(c, sy, so)
                    }
                    N::B(o, p, q) if w == 1 && matches!(o, O::And | O::Or | O::Xor) => {
                        let (p, q) = (g(self, p), g(self, q));
                        match o {
                            O::And => (a.Z3_mk_and)(c, 2, [p, q].as_ptr()),
                            O::Or => (a.Z3_mk_or)(c, 2, [p, q].as_ptr()),
                            _ => (a.Z3_mk_xor)(c, p, q),
                        }
                    }
                    N::B(o, p, q) => {
                        let (p, q) = (gb(self, p), gb(self, q));
                        let f = match o {
                            O::Add => a.Z3_mk_bvadd,
                            O::Sub => a.Z3_mk_bvsub,
                            O::Mul => a.Z3_mk_bvmul,
                            O::UDiv => a.Z3_mk_bvudiv,
                            O::SDiv => a.Z3_mk_bvsdiv,
                            O::URem => a.Z3_mk_bvurem,
                            O::SRem => a.Z3_mk_bvsrem,
                            O::Shl => a.Z3_mk_bvshl,
                            O::LShr => a.Z3_mk_bvlshr,
                            O::AShr => a.Z3_mk_bvashr,
                            O::And => a.Z3_mk_bvand,
                            O::Or => a.Z3_mk_bvor,
                            O::Xor => a.Z3_mk_bvxor,
                        };
                        let r = f(c, p, q);
                        if w == 1 { (a.Z3_mk_eq)(c, r, self.num(1, 1)) } else { r }
                    }
                    N::Eq(p, q) => (a.Z3_mk_eq)(c, g(self, p), g(self, q)),
                    N::Ult(p, q) => (a.Z3_mk_bvult)(c, gb(self, p), gb(self, q)),
                    N::Ule(p, q) => (a.Z3_mk_bvule)(c, gb(self, p), gb(self, q)),
                    N::Slt(p, q) => (a.Z3_mk_bvslt)(c, gb(self, p), gb(self, q)),
                    N::Sle(p, q) => (a.Z3_mk_bvsle)(c, gb(self, p), gb(self, q)),
                    N::Ite(p, q, r) => (a.Z3_mk_ite)(c, g(self, p), g(self, q), g(self, r)),
                    N::Z(p) => (a.Z3_mk_zero_ext)(c, w - x.w(p), gb(self, p)),
                    N::S(p) => (a.Z3_mk_sign_ext)(c, w - x.w(p), gb(self, p)),
                    N::Ex(p, lo) => {
                        let r = (a.Z3_mk_extract)(c, lo + w - 1, lo, gb(self, p));
                        if w == 1 { (a.Z3_mk_eq)(c, r, self.num(1, 1)) } else { r }
                    }
                    N::Cat(p, q) => (a.Z3_mk_concat)(c, gb(self, p), gb(self, q)),
                }
            };
            self.cache.insert(t, r);
            st.pop();
        }
        self.cache[&e]
    }
    fn sync(&mut self, x: &Ex, pc: &[E]) {
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] {
            k += 1;
        }
        unsafe {
            if self.stack.len() > k {
                (self.a.Z3_solver_pop)(self.c, self.s, (self.stack.len() - k) as c_uint);
                self.stack.truncate(k);
            }
            for &e in &pc[k..] {
                let t = self.tr(x, e);
                (self.a.Z3_solver_push)(self.c, self.s);
                (self.a.Z3_solver_assert)(self.c, self.s, t);
                self.stack.push(e);
            }
        }
    }
    fn count(&mut self, r: c_int, t: Instant) -> Res {
        self.queries += 1;
        self.time += t.elapsed().as_secs_f64();
        match r {
            1 => {
                self.q_sat += 1;
                Res::Sat
            }
            -1 => {
                self.q_unsat += 1;
                Res::Unsat
            }
            _ => {
                self.q_unknown += 1;
                Res::Unknown
            }
        }
    }
    fn model_of(&mut self, x: &Ex, s: P, base: &[u128], syms: &[u32]) -> Vec<u128> {
        let mut v = base.to_vec();
        v.resize(x.syms.len(), 0);
        unsafe {
            let m = (self.a.Z3_solver_get_model)(self.c, s);
            if m.is_null() {
                return v;
            }
            (self.a.Z3_model_inc_ref)(self.c, m);
            for &sy in syms {
                let e = x.sym_e[sy as usize];
                let t = self.tr(x, e);
                let mut o: P = std::ptr::null_mut();
                if (self.a.Z3_model_eval)(self.c, m, t, true, &mut o) {
                    v[sy as usize] = self.val(o, x.w(e));
                }
            }
            (self.a.Z3_model_dec_ref)(self.c, m);
        }
        v
    }
    fn val(&self, o: P, w: u32) -> u128 {
        unsafe {
            if w == 1 {
                return ((self.a.Z3_get_bool_value)(self.c, o) == 1) as u128;
            }
            if w <= 64 {
                let mut r = 0u64;
                (self.a.Z3_get_numeral_uint64)(self.c, o, &mut r);
                r as u128
            } else {
                let s = CStr::from_ptr((self.a.Z3_get_numeral_string)(self.c, o)).to_string_lossy();
                s.parse().unwrap_or(0)
            }
        }
    }
    /// Is `pc /\ cond` satisfiable?  On Sat returns a full model.
    /// The incremental solver gets a short budget; what it does not settle goes
    /// to a fresh non-incremental bit-vector solver.
    pub fn check(&mut self, x: &Ex, pc: &[E], cond: E, base: &[u128], syms: &[u32]) -> (Res, Vec<u128>) {
        let t0 = Instant::now();
        unsafe {
            if self.slow < 3 {
                if self.since > 4000 {
                    self.reset();
                }
                self.sync(x, pc);
                let t = self.tr(x, cond);
                (self.a.Z3_solver_push)(self.c, self.s);
                (self.a.Z3_solver_assert)(self.c, self.s, t);
                let r = (self.a.Z3_solver_check)(self.c, self.s);
                self.since += 1;
                if r != 0 {
                    let m = if r == 1 { self.model_of(x, self.s, base, syms) } else { vec![] };
                    (self.a.Z3_solver_pop)(self.c, self.s, 1);
                    if t0.elapsed().as_millis() < 100 {
                        self.slow = 0;
                    }
                    let r = self.count(r, t0);
                    return (r, m);
                }
                (self.a.Z3_solver_pop)(self.c, self.s, 1);
                self.slow += 1;
                self.reset();
            } else {
                // the last queries were all too hard for the incremental solver
                self.skipped += 1;
                if self.skipped >= 20 {
                    self.skipped = 0;
                    self.slow = 1;
                }
            }
            let s = self.mk_solver(c"QF_BV", self.timeout_ms);
            for &p in pc.iter().chain([&cond]) {
                let t = self.tr(x, p);
                (self.a.Z3_solver_assert)(self.c, s, t);
            }
            let t1 = Instant::now();
            let r = (self.a.Z3_solver_check)(self.c, s);
            self.oneshot += 1;
            if std::env::var("SYMX_DUMP").is_ok() && t1.elapsed().as_secs_f64() > 0.1 {
                let st = CStr::from_ptr((self.a.Z3_solver_to_string)(self.c, s)).to_string_lossy().to_string();
                let _ = std::fs::write(format!("/tmp/q{}.smt2", self.queries), st + "\n(check-sat)\n");
            }
            let m = if r == 1 { self.model_of(x, s, base, syms) } else { vec![] };
            (self.a.Z3_solver_dec_ref)(self.c, s);
            let r = self.count(r, t0);
            (r, m)
        }
    }
    fn reset(&mut self) {
        unsafe { (self.a.Z3_solver_dec_ref)(self.c, self.s) };
        self.stack.clear();
        self.since = 0;
        let t = self.inc_timeout();
        self.s = self.mk_solver(c"QF_FD", t);
    }

    // ---- CNF questions
    fn var(&mut self, name: &str) -> P {
        unsafe {
            let nm = CString::new(name).unwrap();
            let sy = (self.a.Z3_mk_string_symbol)(self.c, nm.as_ptr());
            (self.a.Z3_mk_const)(self.c, sy, self.bools)
        }
    }
    /// Literal: variable, optional symbolic sign (true = negated), constant sign
    fn lit(&mut self, x: &Ex, l: &CLit, inv: &[E], cache: &mut HashMap<u32, P>) -> P {
        let v = if (l.var as usize) < inv.len() {
            self.tr(x, inv[l.var as usize])
        } else if let Some(&p) = cache.get(&l.var) {
            p
        } else {
            let p = self.var(&format!("aux{}", l.var));
            cache.insert(l.var, p);
            p
        };
        unsafe {
            match l.sign {
                Sign::K(false) => v,
                Sign::K(true) => (self.a.Z3_mk_not)(self.c, v),
                Sign::S(e) => {
                    let s = self.tr(x, e);
                    (self.a.Z3_mk_xor)(self.c, v, s)
                }
            }
        }
    }
    fn clause(&mut self, x: &Ex, c: &[CLit], inv: &[E], cache: &mut HashMap<u32, P>) -> P {
        let ls: Vec<P> = c.iter().map(|l| self.lit(x, l, inv, cache)).collect();
        unsafe {
            match ls.len() {
                0 => (self.a.Z3_mk_false)(self.c),
                1 => ls[0],
                n => (self.a.Z3_mk_or)(self.c, n as c_uint, ls.as_ptr()),
            }
        }
    }
    /// forall inputs, aux: pc /\ CNF -> cond.  Returns a countermodel if not
    pub fn cnf_implies(&mut self, x: &Ex, pc: &[E], cnf: &[Vec<CLit>], inv: &[E], cond: E, base: &[u128], syms: &[u32]) -> (Res, Vec<u128>) {
        let t0 = Instant::now();
        unsafe {
            let s = self.mk_solver(c"QF_FD", self.timeout_ms);
            let mut cache = HashMap::new();
            for &p in pc {
                let t = self.tr(x, p);
                (self.a.Z3_solver_assert)(self.c, s, t);
            }
            let t = self.tr(x, cond);
            let nt = (self.a.Z3_mk_not)(self.c, t);
            (self.a.Z3_solver_assert)(self.c, s, nt);
            for c in cnf {
                let t = self.clause(x, c, inv, &mut cache);
                (self.a.Z3_solver_assert)(self.c, s, t);
            }
            let r = (self.a.Z3_solver_check)(self.c, s);
            let m = if r == 1 { self.model_of(x, s, base, syms) } else { vec![] };
            (self.a.Z3_solver_dec_ref)(self.c, s);
            self.aux_queries += 1;
            (self.count(r, t0), m)
        }
    }
    /// forall inputs: pc /\ cond -> exists aux: CNF   (CEGAR 2QBF).
    pub fn cnf_exists(&mut self, x: &Ex, pc: &[E], cnf: &[Vec<CLit>], inv: &[E], cond: E, base: &[u128], syms: &[u32]) -> (Res, Vec<u128>) {
        let t0 = Instant::now();
        let deadline = self.timeout_ms as f64 / 1000.0 * 4.0;
        unsafe {
            let outer = self.mk_solver(c"QF_FD", self.timeout_ms);
            let inner = self.mk_solver(c"QF_FD", self.timeout_ms);
            for &p in pc {
                let t = self.tr(x, p);
                (self.a.Z3_solver_assert)(self.c, outer, t);
            }
            let t = self.tr(x, cond);
            (self.a.Z3_solver_assert)(self.c, outer, t);
            // inner: plain boolean variables: in<i> for inputs, sg<e> for symbolic signs
            let mut auxc: HashMap<u32, P> = HashMap::new();
            let mut sgn: HashMap<E, P> = HashMap::new();
            let mut innc: Vec<Option<P>> = vec![None; inv.len()];
            let mut fixed: Vec<(E, P)> = vec![];
            for c in cnf {
                let mut ls = vec![];
                for l in c {
                    let v = if (l.var as usize) < inv.len() {
                        if innc[l.var as usize].is_none() {
                            let p = self.var(&format!("in{}", l.var));
                            innc[l.var as usize] = Some(p);
                            fixed.push((inv[l.var as usize], p));
                        }
                        innc[l.var as usize].unwrap()
                    } else if let Some(&p) = auxc.get(&l.var) {
                        p
                    } else {
                        let p = self.var(&format!("aux{}", l.var));
                        auxc.insert(l.var, p);
                        p
                    };
                    let t = match l.sign {
                        Sign::K(false) => v,
                        Sign::K(true) => (self.a.Z3_mk_not)(self.c, v),
                        Sign::S(e) => {
                            let sp = match sgn.get(&e) {
                                Some(&p) => p,
                                None => {
                                    let p = self.var(&format!("sg{e}"));
                                    sgn.insert(e, p);
                                    fixed.push((e, p));
                                    p
                                }
                            };
                            (self.a.Z3_mk_xor)(self.c, v, sp)
                        }
                    };
                    ls.push(t);
                }
                let t = match ls.len() {
                    0 => (self.a.Z3_mk_false)(self.c),
                    1 => ls[0],
                    n => (self.a.Z3_mk_or)(self.c, n as c_uint, ls.as_ptr()),
                };
                (self.a.Z3_solver_assert)(self.c, inner, t);
            }
            let res;
            let mut model = vec![];
            loop {
                if t0.elapsed().as_secs_f64() > deadline {
                    res = Res::Unknown;
                    break;
                }
                let r = (self.a.Z3_solver_check)(self.c, outer);
                self.aux_queries += 1;
                if r == -1 {
                    res = Res::Unsat; // no counterexample
                    break;
                }
                if r == 0 {
                    res = Res::Unknown;
                    break;
                }
                let m = (self.a.Z3_solver_get_model)(self.c, outer);
                (self.a.Z3_model_inc_ref)(self.c, m);
                let mut asm = vec![];
                for (e, p) in &fixed {
                    let t = self.tr(x, *e);
                    let mut o: P = std::ptr::null_mut();
                    (self.a.Z3_model_eval)(self.c, m, t, true, &mut o);
                    if (self.a.Z3_get_bool_value)(self.c, o) == 1 {
                        asm.push(*p);
                    } else {
                        asm.push((self.a.Z3_mk_not)(self.c, *p));
                    }
                }
                (self.a.Z3_model_dec_ref)(self.c, m);
                let ri = (self.a.Z3_solver_check_assumptions)(self.c, inner, asm.len() as c_uint, asm.as_ptr());
                self.aux_queries += 1;
                if ri == 0 {
                    res = Res::Unknown;
                    break;
                }
                if ri == -1 {
                    model = self.model_of(x, outer, base, syms);
                    res = Res::Sat;
                    break;
                }
                // aux assignment works for all inputs satisfying the residual clauses
                let im = (self.a.Z3_solver_get_model)(self.c, inner);
                (self.a.Z3_model_inc_ref)(self.c, im);
                let mut auxv: HashMap<u32, bool> = HashMap::new();
                for (v, p) in &auxc {
                    let mut o: P = std::ptr::null_mut();
                    (self.a.Z3_model_eval)(self.c, im, *p, true, &mut o);
                    auxv.insert(*v, (self.a.Z3_get_bool_value)(self.c, o) == 1);
                }
                (self.a.Z3_model_dec_ref)(self.c, im);
                let mut bad = vec![];
                let mut seen = std::collections::HashSet::new();
                for c in cnf {
                    let mut satd = false;
                    let mut rest = vec![];
                    for l in c {
                        if (l.var as usize) < inv.len() {
                            rest.push(l.clone());
                        } else {
                            let av = auxv[&l.var];
                            match l.sign {
                                Sign::K(n) => {
                                    if av != n {
                                        satd = true;
                                    }
                                }
                                Sign::S(_) => rest.push(l.clone()),
                            }
                        }
                    }
                    if satd {
                        continue;
                    }
                    let key: Vec<(u32, u64)> = rest.iter().map(|l| (l.var, match l.sign { Sign::K(b) => b as u64, Sign::S(e) => 2 + e as u64 })).collect();
                    if !seen.insert(key) {
                        continue;
                    }
                    // residual clause falsified
                    let mut ls = vec![];
                    for l in &rest {
                        let v = if (l.var as usize) < inv.len() {
                            self.tr(x, inv[l.var as usize])
                        } else if auxv[&l.var] {
                            (self.a.Z3_mk_true)(self.c)
                        } else {
                            (self.a.Z3_mk_false)(self.c)
                        };
                        let t = match l.sign {
                            Sign::K(false) => v,
                            Sign::K(true) => (self.a.Z3_mk_not)(self.c, v),
                            Sign::S(e) => {
                                let s = self.tr(x, e);
                                (self.a.Z3_mk_xor)(self.c, v, s)
                            }
                        };
                        ls.push((self.a.Z3_mk_not)(self.c, t));
                    }
                    bad.push(match ls.len() {
                        0 => (self.a.Z3_mk_true)(self.c),
                        1 => ls[0],
                        n => (self.a.Z3_mk_and)(self.c, n as c_uint, ls.as_ptr()),
                    });
                }
                let t = match bad.len() {
                    0 => (self.a.Z3_mk_false)(self.c),
                    1 => bad[0],
                    n => (self.a.Z3_mk_or)(self.c, n as c_uint, bad.as_ptr()),
                };
                (self.a.Z3_solver_assert)(self.c, outer, t);
            }
            (self.a.Z3_solver_dec_ref)(self.c, outer);
            (self.a.Z3_solver_dec_ref)(self.c, inner);
            let code = match res {
                Res::Sat => 1,
                Res::Unsat => -1,
                Res::Unknown => 0,
            };
            (self.count(code, t0), model)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sign {
    K(bool),
    S(E),
}
#[derive(Clone, Debug)]
pub struct CLit {
    pub var: u32,
    pub sign: Sign,
}
