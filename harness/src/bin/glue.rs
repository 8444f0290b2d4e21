//! S04: the Rust layers over native solvers, driven against stand-ins of the C functions that
//! behave as an arbitrary correct solver and insist on the contracts of the C interfaces
#![allow(static_mut_refs)]
use core::ffi::{c_char, c_int, c_uint, c_void, CStr};
use rustsat::solvers::*;
use rustsat::types::{Clause, Lit, TernaryVal, Var};
use symlib::*;

#[path = "../hist.rs"]
mod hist;
use hist::*;
pub const W: usize = 1;
pub const NV: usize = 3;

entries!(inc, ext_minisat, ext_cadical, kissat, callbacks, terminate, config, invalid, tracer, interrupter);

// ------------------------------------------------------------ the native solver
#[derive(Clone, Copy, PartialEq)]
enum Ns {
    Input,
    Sat(u64),
    Unsat,
}
type TermFn = unsafe extern "C" fn(*mut c_void) -> c_int;
type LearnFn = unsafe extern "C" fn(*mut c_void, *mut c_int);
struct Nat {
    m: M,
    cur: Vec<(u32, bool)>,
    asm: Vec<(u32, bool)>,
    tcur: Vec<(u32, bool)>,
    tmp: Option<M>,
    used_tmp: bool,
    tmp_failed: bool,
    st: Ns,
    /// a variable without a value
    dc: u64,
    failed: Vec<u8>,
    confl: Vec<CLit>,
    n: usize,
    vars: i64,
    model_vars: i64,
    /// whether the solver takes only one query
    once: bool,
    searches: usize,
    term: Option<(*mut c_void, TermFn)>,
    learn: Option<(*mut c_void, c_int, LearnFn)>,
    elim: u64,
    frozen: u64,
}
/// calls that only pass values on
#[derive(Clone, Copy)]
struct Call(&'static str, i64, i64);
static mut LOG: Vec<Call> = vec![];
static mut LIVE: usize = 0;
/// the next return value of calls that return numbers
static mut RET: i64 = 0;
/// how a call fails: 0 not, 1 out of memory, 2 an undocumented return value
static mut OOM: bool = false;
static mut CALLED: usize = 0;
static mut LEARNED: Vec<Vec<Lit>> = vec![];
/// may models be partial?
static mut PARTIAL: bool = false;
/// the names of options and the like
static mut NAMES: Vec<Vec<u8>> = vec![];

fn nat(h: *mut c_void) -> &'static mut Nat {
    unsafe {
        let r = &mut *h.cast::<Nat>();
        // (the native solver accesses its memory)
        std::ptr::read_volatile(&r.n);
        r
    }
}
fn log(what: &'static str, a: i64, b: i64) {
    unsafe { LOG.push(Call(what, a, b)) }
}
/// exactly this call was made
fn called(what: &'static str, a: i64, b: i64) {
    unsafe {
        check(LOG.len() == 1 && LOG[0].0 == what, "the matching function of the native solver is called");
        check(LOG[0].1 == a && LOG[0].2 == b, "the arguments are passed on unchanged");
        LOG.clear();
    }
}
fn not_called() {
    check(unsafe { LOG.is_empty() }, "no other function of the native solver is called");
}
fn init(once: bool) -> *mut c_void {
    let h = init_(once);
    unsafe {
        INITED = h;
        HANDLE = h;
    }
    h
}
fn init_(once: bool) -> *mut c_void {
    unsafe { LIVE += 1 };
    Box::into_raw(Box::new(Nat {
        m: M::all(),
        cur: vec![],
        asm: vec![],
        tcur: vec![],
        tmp: None,
        used_tmp: false,
        tmp_failed: false,
        st: Ns::Input,
        dc: 0,
        failed: vec![],
        confl: vec![],
        n: 0,
        vars: 0,
        model_vars: 0,
        once,
        searches: 0,
        term: None,
        learn: None,
        elim: 0,
        frozen: 0,
    }))
    .cast()
}
fn release(h: *mut c_void) {
    unsafe {
        LIVE -= 1;
        drop(Box::from_raw(h.cast::<Nat>()));
    }
}
fn rmask(v: u32, neg: bool) -> M {
    M::lit(Lit::new(v, neg))
}
fn ipa(x: c_int) -> (u32, bool) {
    check(x != 0 && x != c_int::MIN, "literals of the native solver are not zero");
    ((x.unsigned_abs()) - 1, x < 0)
}
impl Nat {
    fn know(&mut self, v: u32) {
        let v = v as i64 + 1;
        self.vars = ite(v > self.vars, v as u64, self.vars as u64) as i64;
    }
    fn changed(&mut self) {
        check(!self.once || self.searches == 0, "the native solver is not incremental");
        self.st = Ns::Input;
    }
    fn close(&mut self) {
        let c = std::mem::take(&mut self.cur);
        let m = c.iter().fold(M::none(), |m, l| m.or(rmask(l.0, l.1)));
        self.m = self.m.and(m);
        self.n += 1;
    }
    fn add(&mut self, x: c_int) {
        self.changed();
        if x == 0 {
            self.close();
        } else {
            let l = ipa(x);
            self.know(l.0);
            self.cur.push(l);
        }
    }
    fn answer(&mut self, count: bool) -> c_int {
        check(self.cur.is_empty() & self.tcur.is_empty(), "clauses are terminated before solving");
        check(!self.once || self.searches == 0, "the native solver is not incremental");
        self.searches += 1;
        if let Some(x) = unsafe { ODD.0 } {
            return x;
        }
        let asm = std::mem::take(&mut self.asm);
        let tmp = self.tmp.take();
        self.st = Ns::Input;
        let count = |k: usize| unsafe { COUNT[k] += count as usize };
        if let Some((p, f)) = self.term {
            unsafe { CALLED = 0 };
            if conc_bool(unsafe { f(p) } != 0) {
                count(2);
                return 0;
            }
        }
        if unsafe { FAULTS } {
            match pick(2 + unsafe { OOM } as usize) {
                0 => (),
                1 => {
                    count(2);
                    return 0;
                }
                _ => {
                    count(3);
                    return 50;
                }
            }
        }
        let with = tmp.unwrap_or(M::all());
        let set = asm.iter().fold(self.m.and(with), |m, l| m.and(rmask(l.0, l.1)));
        if conc_bool(set.empty()) {
            self.st = Ns::Unsat;
            self.used_tmp = tmp.is_some();
            // any subset of the assumptions that is sufficient
            self.failed = vec![];
            self.tmp_failed = tmp.is_some() && choice();
            let mut rest = if self.tmp_failed { self.m.and(with) } else { self.m };
            self.confl = vec![];
            for l in &asm {
                let f = choice();
                self.failed.push(f as u8);
                if f {
                    rest = rest.and(rmask(l.0, l.1));
                    self.confl.push(CLit { x: (2 * l.0 + !l.1 as u32) as i32 });
                }
            }
            assume(rest.empty());
            self.asm_last(asm);
            count(1);
            return 20;
        }
        let k = mag(NV as u64);
        assume(set.has(k));
        self.dc = 0;
        if unsafe { PARTIAL } && choice() {
            let v = pick(self.n_vars());
            self.dc = 1 << v;
            assume(set.has(k ^ self.dc));
        }
        self.st = Ns::Sat(k);
        self.model_vars = self.vars;
        count(0);
        10
    }
    fn n_vars(&self) -> usize {
        if self.vars == 0 {
            1
        } else {
            concretize(self.vars as u64) as usize
        }
    }
    fn asm_last(&mut self, asm: Vec<(u32, bool)>) {
        // (kept for `failed`)
        self.asm_kept().clear();
        self.asm_kept().extend(asm);
    }
    fn asm_kept(&mut self) -> &mut Vec<(u32, bool)> {
        unsafe { &mut KEPT }
    }
    /// 1: true, -1: false, 0: no value
    fn value(&self, v: u32, neg: bool) -> i64 {
        match self.st {
            Ns::Sat(k) => {
                let known = (v as i64) < self.model_vars;
                let val = (k >> v) & 1;
                let some = (self.dc >> v & 1 == 0) & known;
                ite(some, ite((val == 1) != neg, 1, -1i64 as u64), 0) as i64
            }
            _ => {
                check(false, "values are only asked for after a satisfiable answer");
                0
            }
        }
    }
    fn ipasir_val(&self, x: c_int) -> c_int {
        let (v, neg) = ipa(x);
        if v >= 64 {
            return 0;
        }
        if let Some(x) = unsafe { ODD.1 } {
            return x;
        }
        (self.value(v, neg) * x as i64) as c_int
    }
    fn ipasir_failed(&mut self, x: c_int) -> c_int {
        check(self.st == Ns::Unsat, "failed assumptions are only asked for after an unsatisfiable answer");
        let l = ipa(x);
        let mut r = 0;
        let mut is = false;
        for i in 0..self.failed.len() {
            let a = unsafe { KEPT[i] };
            let same = (a.0 == l.0) & (a.1 == l.1);
            is |= same;
            r |= self.failed[i] & same as u8;
        }
        check(is, "only assumptions are asked for");
        r as c_int
    }
}
static mut KEPT: Vec<(u32, bool)> = vec![];
fn oom() -> c_int {
    if unsafe { FAULTS && OOM } && choice() {
        unsafe { COUNT[3] += 1 };
        return 50;
    }
    0
}

// ------------------------------------------------------------ IPASIR
macro_rules! c_str {
    ($name:ident, $s:expr) => {
        #[no_mangle]
        extern "C" fn $name() -> *const c_char {
            $s.as_ptr()
        }
    };
}
c_str!(ipasir_signature, c"any correct solver");
c_str!(cminisat_signature, c"any correct solver");
c_str!(cglucose4_signature, c"any correct solver");
c_str!(kissat_signature, c"any correct solver");
c_str!(ccadical_signature, c"any correct solver");
c_str!(kissat_id, c"id");
c_str!(kissat_version, c"version");
c_str!(kissat_compiler, c"compiler");
macro_rules! c_fn {
    ($($name:ident($($a:ident: $t:ty),*) $(-> $r:ty)? $b:block)*) => {
        $(#[no_mangle]
        extern "C" fn $name($($a: $t),*) $(-> $r)? $b)*
    };
}
type H = *mut c_void;
c_fn! {
    ipasir_init() -> H { init(false) }
    ipasir_release(h: H) { release(h) }
    ipasir_add(h: H, x: c_int) { nat(h).add(x) }
    ipasir_assume(h: H, x: c_int) { let l = ipa(x); nat(h).st = Ns::Input; nat(h).know(l.0); nat(h).asm.push(l) }
    ipasir_solve(h: H) -> c_int { nat(h).answer(true) }
    ipasir_val(h: H, x: c_int) -> c_int { nat(h).ipasir_val(x) }
    ipasir_failed(h: H, x: c_int) -> c_int { nat(h).ipasir_failed(x) }
    ipasir_set_terminate(h: H, p: *mut c_void, f: Option<TermFn>) { nat(h).term = f.map(|f| (p, f)) }
    ipasir_set_learn(h: H, p: *mut c_void, n: c_int, f: Option<LearnFn>) { nat(h).learn = f.map(|f| (p, n, f)) }
}

// ------------------------------------------------------------ Kissat
c_fn! {
    kissat_init() -> H { init(true) }
    kissat_release(h: H) { release(h) }
    kissat_add(h: H, x: c_int) { nat(h).add(x) }
    kissat_solve(h: H) -> c_int { nat(h).answer(true) }
    kissat_value(h: H, x: c_int) -> c_int { nat(h).ipasir_val(x) }
    kissat_set_terminate(h: H, p: *mut c_void, f: Option<TermFn>) { nat(h).term = f.map(|f| (p, f)) }
    kissat_terminate(h: H) { nat(h); log("interrupt", 0, 0) }
    kissat_reserve(h: H, v: c_int) { nat(h); log("reserve", v as i64, 0) }
    kissat_get_option(h: H, s: *const c_char) -> c_int { nat(h); name(s); log("get", 0, 0); unsafe { RET as c_int } }
    kissat_set_option(h: H, s: *const c_char, v: c_int) -> c_int { nat(h); name(s); log("set", v as i64, 0); unsafe { RET as c_int } }
    kissat_set_configuration(h: H, s: *const c_char) -> c_int { nat(h); name(s); log("config", 0, 0); unsafe { RET as c_int } }
    kissat_set_conflict_limit(h: H, v: c_uint) { nat(h); log("conflicts", v as i64, 0) }
    kissat_set_decision_limit(h: H, v: c_uint) { nat(h); log("decisions", v as i64, 0) }
    kissat_print_statistics(h: H) { nat(h); log("print", 0, 0) }
    kissat_call_function_instead_of_abort(_f: *const c_void) {}
}
fn name(s: *const c_char) {
    let b = unsafe { CStr::from_ptr(s) }.to_bytes().to_vec();
    unsafe { NAMES.push(b) };
}

// ------------------------------------------------------------ Minisat and Glucose
#[derive(Clone, Copy)]
#[repr(C)]
struct CLit {
    x: c_int,
}
impl CLit {
    fn l(self) -> (u32, bool) {
        check(self.x >= 0, "literals of the native solver are not negative");
        ((self.x as u32) >> 1, self.x & 1 == 1)
    }
}
unsafe fn clits<'a>(p: *const CLit, n: usize) -> &'a [CLit] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n)
    }
}
type PropFn = extern "C" fn(*mut c_void, CLit);
/// what the native solver says about a propagation
static mut PROPS: (Vec<Lit>, bool) = (vec![], false);
fn ms_add(h: H, p: *const CLit, n: usize) -> c_int {
    if oom() != 0 {
        return 50;
    }
    let s = nat(h);
    s.changed();
    s.know(0);
    for l in unsafe { clits(p, n) } {
        s.know(l.l().0);
        s.cur.push(l.l());
    }
    s.close();
    0
}
fn ms_solve(h: H, p: *const CLit, n: usize) -> c_int {
    let s = nat(h);
    s.know(0);
    for l in unsafe { clits(p, n) } {
        let (v, neg) = l.l();
        check(s.elim >> v & 1 == 0, "eliminated variables are not assumed");
        s.know(v);
        s.asm.push((v, neg));
    }
    s.answer(true)
}
fn ms_val(h: H, l: CLit) -> c_int {
    let s = nat(h);
    // (as the C functions do, the value of the variable)
    let v = l.l().0;
    check((v as i64) < s.model_vars, "values are only asked for variables of the model");
    if let Some(x) = unsafe { ODD.1 } {
        return x;
    }
    s.value(v, false) as c_int
}
fn ms_known(h: H, v: c_int) {
    check((v >= 0) & ((v as i64) < nat(h).vars), "the native solver is only asked about variables it knows");
}
fn ms_prop(h: H, p: *const CLit, n: usize, saving: c_int, f: PropFn, data: *mut c_void) -> c_int {
    if oom() != 0 {
        return 50;
    }
    let s = nat(h);
    s.st = Ns::Input;
    for l in unsafe { clits(p, n) } {
        ms_known(h, l.l().0 as c_int);
        log("assumed", l.x as i64, 0);
    }
    log("propagate", saving as i64, 0);
    let r = unsafe { &PROPS };
    for l in &r.0 {
        f(data, CLit { x: (2 * l.vidx32() + l.is_neg() as u32) as c_int });
    }
    if r.1 {
        20
    } else {
        10
    }
}
macro_rules! minisat_fns {
    ($($init:ident $release:ident $reserve:ident $add:ident $solve:ident $val:ident $conflict:ident $phase:ident $unphase:ident $na:ident $nc:ident $nl:ident $nv:ident
       $cl:ident $pl:ident $no:ident $int:ident $dec:ident $prop:ident $con:ident $pc:ident)*) => {$(
        c_fn! {
            $init() -> H { init(false) }
            $release(h: H) { release(h) }
            $reserve(h: H, v: c_int) -> c_int { if oom() != 0 { return 50; } nat(h).know(v as u32); 0 }
            $add(h: H, p: *const CLit, n: usize) -> c_int { ms_add(h, p, n) }
            $solve(h: H, p: *const CLit, n: usize) -> c_int { ms_solve(h, p, n) }
            $val(h: H, l: CLit) -> c_int { ms_val(h, l) }
            $conflict(h: H, p: *mut *const CLit, n: *mut usize) {
                let s = nat(h);
                check(s.st == Ns::Unsat, "the conflict is only asked for after an unsatisfiable answer");
                unsafe { *n = s.confl.len(); *p = if s.confl.is_empty() { std::ptr::null() } else { s.confl.as_ptr() }; }
            }
            $phase(h: H, l: CLit) -> c_int { if oom() != 0 { return 50; } ms_known(h, l.l().0 as c_int); log("phase", l.x as i64, 0); 0 }
            $unphase(h: H, v: c_int) { ms_known(h, v); log("unphase", v as i64, 0) }
            $na(h: H) -> c_int { nat(h); log("assigns", 0, 0); unsafe { RET as c_int } }
            $nc(h: H) -> c_int { nat(h).n as c_int }
            $nl(h: H) -> c_int { nat(h); log("learnts", 0, 0); unsafe { RET as c_int } }
            $nv(h: H) -> c_int { nat(h).vars as c_int }
            $cl(h: H, l: i64) { nat(h); log("conflicts", l, 0) }
            $pl(h: H, l: i64) { nat(h); log("propagations", l, 0) }
            $no(h: H) { nat(h); log("no limit", 0, 0) }
            $int(h: H) { nat(h); log("interrupt", 0, 0) }
            $dec(h: H) -> u64 { nat(h); log("n decisions", 0, 0); unsafe { RET as u64 } }
            $prop(h: H) -> u64 { nat(h); log("n propagations", 0, 0); unsafe { RET as u64 } }
            $con(h: H) -> u64 { nat(h); log("n conflicts", 0, 0); unsafe { RET as u64 } }
            $pc(h: H, p: *const CLit, n: usize, s: c_int, f: PropFn, d: *mut c_void) -> c_int { ms_prop(h, p, n, s, f, d) }
        }
    )*};
}
minisat_fns! {
    cminisat_init cminisat_release cminisat_reserve cminisat_add_clause cminisat_solve cminisat_val cminisat_conflict cminisat_phase cminisat_unphase cminisat_n_assigns cminisat_n_clauses cminisat_n_learnts cminisat_n_vars
    cminisat_set_conf_limit cminisat_set_prop_limit cminisat_set_no_limit cminisat_interrupt cminisat_decisions cminisat_propagations cminisat_conflicts cminisat_propcheck
    cminisatsimp_init cminisatsimp_release cminisatsimp_reserve cminisatsimp_add_clause cminisatsimp_solve cminisatsimp_val cminisatsimp_conflict cminisatsimp_phase cminisatsimp_unphase cminisatsimp_n_assigns cminisatsimp_n_clauses cminisatsimp_n_learnts cminisatsimp_n_vars
    cminisatsimp_set_conf_limit cminisatsimp_set_prop_limit cminisatsimp_set_no_limit cminisatsimp_interrupt cminisatsimp_decisions cminisatsimp_propagations cminisatsimp_conflicts cminisatsimp_propcheck
    cglucose4_init cglucose4_release cglucose4_reserve cglucose4_add_clause cglucose4_solve cglucose4_val cglucose4_conflict cglucose4_phase cglucose4_unphase cglucose4_n_assigns cglucose4_n_clauses cglucose4_n_learnts cglucose4_n_vars
    cglucose4_set_conf_limit cglucose4_set_prop_limit cglucose4_set_no_limit cglucose4_interrupt cglucose4_decisions cglucose4_propagations cglucose4_conflicts cglucose4_propcheck
    cglucosesimp4_init cglucosesimp4_release cglucosesimp4_reserve cglucosesimp4_add_clause cglucosesimp4_solve cglucosesimp4_val cglucosesimp4_conflict cglucosesimp4_phase cglucosesimp4_unphase cglucosesimp4_n_assigns cglucosesimp4_n_clauses cglucosesimp4_n_learnts cglucosesimp4_n_vars
    cglucosesimp4_set_conf_limit cglucosesimp4_set_prop_limit cglucosesimp4_set_no_limit cglucosesimp4_interrupt cglucosesimp4_decisions cglucosesimp4_propagations cglucosesimp4_conflicts cglucosesimp4_propcheck
}
fn ms_set_frozen(h: H, v: c_int, f: c_int) {
    ms_known(h, v);
    let s = nat(h);
    s.frozen = if f != 0 { s.frozen | 1 << v } else { s.frozen & !(1 << v) };
    log("frozen", v as i64, (f != 0) as i64);
}
fn ms_is_frozen(h: H, v: c_int) -> c_int {
    ms_known(h, v);
    (nat(h).frozen >> v & 1) as c_int
}
fn ms_is_eliminated(h: H, v: c_int) -> c_int {
    ms_known(h, v);
    (nat(h).elim >> v & 1) as c_int
}
c_fn! {
    cminisatsimp_set_frozen(h: H, v: c_int, f: c_int) { ms_set_frozen(h, v, f) }
    cminisatsimp_is_frozen(h: H, v: c_int) -> c_int { ms_is_frozen(h, v) }
    cminisatsimp_is_eliminated(h: H, v: c_int) -> c_int { ms_is_eliminated(h, v) }
    cglucosesimp4_set_frozen(h: H, v: c_int, f: c_int) { ms_set_frozen(h, v, f) }
    cglucosesimp4_is_frozen(h: H, v: c_int) -> c_int { ms_is_frozen(h, v) }
    cglucosesimp4_is_eliminated(h: H, v: c_int) -> c_int { ms_is_eliminated(h, v) }
}

// ------------------------------------------------------------ CaDiCaL
type ImplFn = unsafe extern "C" fn(*mut c_void, c_int);
static mut TRACERS: Vec<(H, *mut c_void, Callbacks, bool)> = vec![];
#[derive(Clone, Copy)]
#[repr(C)]
struct Callbacks {
    add_original_clause: unsafe extern "C" fn(*mut c_void, i64, bool, usize, *const c_int, bool),
    add_derived_clause: unsafe extern "C" fn(*mut c_void, i64, bool, usize, *const c_int, usize, *const i64),
    delete_clause: unsafe extern "C" fn(*mut c_void, i64, bool, usize, *const c_int),
    weaken_minus: unsafe extern "C" fn(*mut c_void, i64, usize, *const c_int),
    strengthen: unsafe extern "C" fn(*mut c_void, i64),
    report_status: unsafe extern "C" fn(*mut c_void, c_int, i64),
    finalize_clause: unsafe extern "C" fn(*mut c_void, i64, usize, *const c_int),
    begin_proof: unsafe extern "C" fn(*mut c_void, i64),
    solve_query: unsafe extern "C" fn(*mut c_void),
    add_assumption: unsafe extern "C" fn(*mut c_void, c_int),
    add_constraint: unsafe extern "C" fn(*mut c_void, usize, *const c_int),
    reset_assumptions: unsafe extern "C" fn(*mut c_void),
    add_assumption_clause: unsafe extern "C" fn(*mut c_void, i64, usize, *const c_int, usize, *const i64),
    conclude_unsat: unsafe extern "C" fn(*mut c_void, c_uint, usize, *const i64),
    conclude_sat: unsafe extern "C" fn(*mut c_void, usize, *const c_int),
    conclude_unknown: unsafe extern "C" fn(*mut c_void, usize, *const c_int),
    notify_equivalence: unsafe extern "C" fn(*mut c_void, c_int, c_int),
}
fn cad_flip(h: H, x: c_int, really: bool) -> c_int {
    let (v, _) = ipa(x);
    let s = nat(h);
    let Ns::Sat(k) = s.st else {
        check(false, "literals are only flipped after a satisfiable answer");
        return 0;
    };
    // (conservatively)
    let ok = choice();
    if ok {
        let k2 = k ^ 1 << v;
        assume(s.m.has(k2));
        if really {
            s.st = Ns::Sat(k2);
        }
    }
    log(if really { "flip" } else { "flippable" }, x as i64, ok as i64);
    ok as c_int
}
c_fn! {
    ccadical_init() -> H { init(false) }
    ccadical_release(h: H) { release(h) }
    ccadical_add_mem(h: H, x: c_int) -> c_int { if oom() != 0 { return 50; } nat(h).add(x); 0 }
    ccadical_assume_mem(h: H, x: c_int) -> c_int { if oom() != 0 { return 50; } let l = ipa(x); nat(h).st = Ns::Input; nat(h).know(l.0); nat(h).asm.push(l); 0 }
    ccadical_constrain_mem(h: H, x: c_int) -> c_int {
        if oom() != 0 { return 50; }
        let s = nat(h);
        s.changed();
        if x == 0 {
            let c = std::mem::take(&mut s.tcur);
            // (one constraint at a time: a new one replaces the old one)
            s.tmp = Some(c.iter().fold(M::none(), |m, l| m.or(rmask(l.0, l.1))));
        } else {
            let l = ipa(x);
            s.know(l.0);
            s.tcur.push(l);
        }
        0
    }
    ccadical_solve_mem(h: H) -> c_int { nat(h).answer(true) }
    ccadical_simplify_rounds(h: H, r: c_int) -> c_int {
        check(r >= 0, "the number of rounds is not negative");
        log("simplify", r as i64, 0);
        // (without the out-of-memory convention)
        let o = unsafe { OOM };
        unsafe { OOM = false };
        let r = nat(h).answer(false);
        unsafe { OOM = o };
        r
    }
    ccadical_val(h: H, x: c_int) -> c_int { nat(h).ipasir_val(x) }
    ccadical_failed(h: H, x: c_int) -> c_int { nat(h).ipasir_failed(x) }
    ccadical_constraint_failed(h: H) -> c_int {
        let s = nat(h);
        check(s.st == Ns::Unsat, "the constraint is only asked for after an unsatisfiable answer");
        s.tmp_failed as c_int
    }
    ccadical_set_terminate(h: H, p: *mut c_void, f: Option<TermFn>) { nat(h).term = f.map(|f| (p, f)) }
    ccadical_set_learn(h: H, p: *mut c_void, n: c_int, f: Option<LearnFn>) { nat(h).learn = f.map(|f| (p, n, f)) }
    ccadical_get_option(h: H, s: *const c_char) -> c_int { nat(h); name(s); log("get", 0, 0); unsafe { RET as c_int } }
    ccadical_set_option_ret(h: H, s: *const c_char, v: c_int) -> c_int { nat(h); name(s); log("set", v as i64, 0); unsafe { RET as c_int } }
    ccadical_limit_ret(h: H, s: *const c_char, v: c_int) -> c_int { nat(h); name(s); log("limit", v as i64, 0); unsafe { RET as c_int } }
    ccadical_configure(h: H, s: *const c_char) -> c_int { nat(h); name(s); log("config", 0, 0); unsafe { RET as c_int } }
    ccadical_print_statistics(h: H) { nat(h); log("print", 0, 0) }
    ccadical_active(h: H) -> i64 { nat(h); log("active", 0, 0); unsafe { RET } }
    ccadical_irredundant(h: H) -> i64 { nat(h); log("irredundant", 0, 0); unsafe { RET } }
    ccadical_redundant(h: H) -> i64 { nat(h); log("redundant", 0, 0); unsafe { RET } }
    ccadical_fixed(h: H, x: c_int) -> c_int { nat(h); ipa(x); log("fixed", x as i64, 0); unsafe { RET as c_int } }
    ccadical_terminate(h: H) { nat(h); log("interrupt", 0, 0) }
    ccadical_freeze(h: H, x: c_int) { nat(h); ipa(x); log("freeze", x as i64, 0) }
    ccadical_frozen(h: H, x: c_int) -> c_int { nat(h); ipa(x); log("frozen", x as i64, 0); unsafe { RET as c_int } }
    ccadical_melt(h: H, x: c_int) { nat(h); ipa(x); log("melt", x as i64, 0) }
    ccadical_phase(h: H, x: c_int) { nat(h); ipa(x); log("phase", x as i64, 0) }
    ccadical_unphase(h: H, x: c_int) { nat(h); ipa(x); log("unphase", x as i64, 0) }
    ccadical_vars(h: H) -> c_int { nat(h).vars as c_int }
    ccadical_resize(h: H, v: c_int) -> c_int { if oom() != 0 { return 50; } ipa(v); nat(h).changed(); nat(h).know(v as u32 - 1); 0 }
    ccadical_declare_more_variables(h: H, n: c_int) -> c_int { check(n >= 0, "a number of variables"); let s = nat(h); s.st = Ns::Input; s.vars += n as i64; s.vars as c_int }
    ccadical_flip(h: H, x: c_int) -> c_int { cad_flip(h, x, true) }
    ccadical_flippable(h: H, x: c_int) -> c_int { cad_flip(h, x, false) }
    ccadical_propagate(h: H) -> c_int {
        if oom() != 0 { return 50; }
        let s = nat(h);
        let asm = std::mem::take(&mut s.asm);
        s.st = Ns::Input;
        for l in &asm {
            log("assumed", (2 * l.0 + l.1 as u32) as i64, 0);
        }
        log("propagate", 0, 0);
        if unsafe { PROPS.1 } {
            return 20;
        }
        let set = asm.iter().fold(s.m, |m, l| m.and(rmask(l.0, l.1)));
        if choice() {
            // everything is assigned
            let k = mag(NV as u64);
            assume(set.has(k));
            s.st = Ns::Sat(k);
            s.dc = 0;
            s.model_vars = s.vars;
            return 10;
        }
        0
    }
    ccadical_implied(h: H, f: ImplFn, d: *mut c_void) {
        nat(h);
        for l in unsafe { &PROPS.0 } {
            let x = l.vidx32() as c_int + 1;
            unsafe { f(d, if l.is_neg() { -x } else { x }) }
        }
    }
    ccadical_trace_proof_path(h: H, s: *const c_char) -> c_int { nat(h); name(s); log("trace", 0, 0); 1 }
    ccadical_get_statistic_value(h: H, s: *const c_char) -> i64 { nat(h); name(s); log("statistic", 0, 0); unsafe { RET } }
    ccadical_connect_proof_tracer(h: H, d: *mut c_void, c: Callbacks, a: bool) -> *mut c_void {
        nat(h);
        unsafe { TRACERS.push((h, d, c, a)); TRACERS.len() as *mut c_void }
    }
    ccadical_disconnect_proof_tracer(h: H, t: *mut c_void) -> bool {
        nat(h);
        let t = unsafe { &mut TRACERS[t as usize - 1] };
        if t.0 != h {
            return false;
        }
        t.0 = std::ptr::null_mut();
        true
    }
}

// ------------------------------------------------------------ histories
fn setup(f: u64) {
    unsafe {
        FAULTS = f % 2 == 1;
        OOM = f / 2 % 2 == 1;
        PARTIAL = f / 4 % 2 == 1;
        ERR_UNKNOWN = true;
        RET = 1;
        LOG.reserve(16);
    }
}
fn cleared() {
    unsafe {
        LOG.clear();
        NAMES.clear();
    }
}
/// steps of a history of solver `S`, with further operations
fn drive<S: SolveIncremental + SolveStats + Default + Extend<Clause>>(a: [u64; 4], n_ops: usize, slacks: bool, mut ext: impl FnMut(&mut S, &mut Hist, usize, &dyn Fn() -> usize)) {
    let n = a[1] as usize;
    let max = a[2] as usize % 10;
    setup(a[2] / 10 % 10);
    let min = if a[2] >= 100 { max } else { 0 };
    let size = || min + pick(max + 1 - min);
    let mut h = Hist::new(n);
    let mut s = S::default();
    check(s.signature() == "any correct solver", "the signature is passed on");
    cleared();
    let mut first = a[3];
    for _ in 0..a[0] {
        let op = match first % 32 {
            0 => pick(6 + n_ops),
            k => k as usize - 1,
        };
        first /= 32;
        let c3 = unsafe { COUNT[3] };
        if op < 6 {
            step_faulty(&mut s, &mut h, op, &size);
        } else {
            ext(&mut s, &mut h, op - 6, &size);
        }
        not_called();
        // (failures are final for these histories)
        if unsafe { COUNT[3] } != c3 {
            witness(5);
            break;
        }
        if slacks {
            slack(&mut h, 0);
            for l in h.asm.clone() {
                slack(&mut h, l.vidx() as i64);
            }
        }
        h.look(&mut s, true);
    }
    drop(s);
    check(unsafe { LIVE } == 0, "the native solver is released");
    witness(9);
}
/// a variable that the solver may know
fn slack(h: &mut Hist, v: i64) {
    h.max_slack = ite(v > h.max_slack, v as u64, h.max_slack as u64) as i64;
}
fn step_faulty<S: SolveIncremental + SolveStats + Extend<Clause>>(s: &mut S, h: &mut Hist, op: usize, size: &dyn Fn() -> usize) {
    if unsafe { FAULTS && OOM } && op == 0 {
        let c = sym_clause(h.n, size());
        let c3 = unsafe { COUNT[3] };
        let r = s.add_clause(Clause::from(&c[..]));
        check(r.is_err() == (unsafe { COUNT[3] } != c3), "running out of memory is reported");
        h.added(&c);
        return;
    }
    if unsafe { FAULTS && OOM } && (op == 1 || op == 4) {
        return;
    }
    let c3 = unsafe { COUNT[3] };
    step(s, h, op, true, size);
    if op == 2 || op == 3 {
        check((h.last == Last::Unknown) == (unsafe { COUNT[3] } != c3), "running out of memory is reported");
    }
}
/// the common operations: a[0] % 10 solver, a[0] / 10 operations, a[1..] as above
fn inc(mut a: [u64; 4]) {
    let k = a[0] % 10;
    a[0] /= 10;
    match k {
        0 => drive::<rustsat_ipasir::IpasirSolver>(a, 0, false, |_, _, _, _| ()),
        1 => drive::<rustsat_minisat::core::Minisat>(a, 0, true, |_, _, _, _| ()),
        2 => drive::<rustsat_minisat::simp::Minisat>(a, 0, true, |_, _, _, _| ()),
        3 => drive::<rustsat_glucose::core::Glucose>(a, 0, true, |_, _, _, _| ()),
        4 => drive::<rustsat_glucose::simp::Glucose>(a, 0, true, |_, _, _, _| ()),
        _ => drive::<rustsat_cadical::CaDiCaL>(a, 0, true, |_, _, _, _| ()),
    }
}
fn ret(f: impl FnOnce(i64)) {
    let r = u32_();
    assume(r < 1 << 31);
    unsafe { RET = r as i64 };
    f(r as i64);
    unsafe { RET = 1 };
}
fn known_var(h: &Hist, v: Var) -> bool {
    (v.idx() as i64) <= h.max
}
/// a propagation with assumptions
fn prop_op<S: Propagate + SolveIncremental + SolveStats>(s: &mut S, h: &mut Hist, size: &dyn Fn() -> usize, saving: bool) {
    let asm = sym_clause(h.n, size());
    unsafe { PROPS = (sym_clause(h.n, pick(3)), choice()) };
    let sv = choice();
    let c3 = unsafe { COUNT[3] };
    let r = s.propagate(&asm, sv);
    h.last = Last::Unknown;
    let log = unsafe { std::mem::take(&mut LOG) };
    if unsafe { COUNT[3] } != c3 {
        return check(r.is_err(), "running out of memory is reported");
    }
    check(r.is_ok(), "propagations are possible at any time");
    let r = r.unwrap();
    let p = unsafe { &PROPS };
    check(r.conflict == p.1, "conflicts of propagations are reported");
    if saving || !p.1 {
        check(r.propagated == p.0, "the propagated literals are reported");
    }
    check(log.len() == asm.len() + 1, "the assumptions are passed on");
    for (c, a) in log.iter().zip(&asm) {
        check(c.0 == "assumed" && c.1 == (2 * a.vidx32() + a.is_neg() as u32) as i64, "the assumptions are passed on");
    }
    check(log[asm.len()].0 == "propagate" && (!saving || log[asm.len()].1 == sv as i64), "the phase saving is passed on");
    for l in &asm {
        let v = l.vidx() as i64;
        h.max = ite(v > h.max, v as u64, h.max as u64) as i64;
    }
    witness(10);
}
fn phase_ops<S: PhaseLit + SolveStats>(s: &mut S, h: &mut Hist, op: usize) {
    let c3 = unsafe { COUNT[3] };
    match op {
        0 => {
            let l = sym_lit(h.n);
            let r = s.phase_lit(l);
            let err = unsafe { COUNT[3] } != c3;
            check(r.is_err() == err, "running out of memory is reported");
            if !err {
                called("phase", (2 * l.vidx32() + l.is_neg() as u32) as i64, 0);
            }
            let v = l.vidx() as i64;
            h.max = ite(v > h.max, v as u64, h.max as u64) as i64;
        }
        _ => {
            let v = sym_lit(h.n).var();
            check(s.unphase_var(v).is_ok(), "phases can be removed at any time");
            let known = conc_bool(known_var(h, v));
            if known || !unsafe { LOG.is_empty() } {
                called("unphase", v.idx32() as i64, 0);
            }
        }
    }
}
macro_rules! ext_ms {
    ($s:expr, $h:expr, $op:expr, $size:expr, $c:ident) => {
        match $op {
            0 => {
                let v = sym_lit($h.n).var();
                let c3 = unsafe { COUNT[3] };
                let r = $s.reserve(v);
                check(r.is_err() == (unsafe { COUNT[3] } != c3), "running out of memory is reported");
                let v = v.idx() as i64;
                $h.max = ite(v > $h.max, v as u64, $h.max as u64) as i64;
            }
            1 | 2 => phase_ops($s, $h, $op - 1),
            3 => prop_op($s, $h, $size, true),
            4 => {
                let l = u32_();
                let some = choice();
                check($s.limit_conflicts(some.then_some(l)).is_ok(), "limits can be set at any time");
                called("conflicts", if some { l as i64 } else { -1 }, 0);
                check($s.limit_propagations(some.then_some(l)).is_ok(), "limits can be set at any time");
                called("propagations", if some { l as i64 } else { -1 }, 0);
                $s.set_limit($c::Limit::None);
                called("no limit", 0, 0);
                let l = u64_() as i64;
                $s.set_limit($c::Limit::Conflicts(l));
                called("conflicts", l, 0);
                $s.set_limit($c::Limit::Propagations(l));
                called("propagations", l, 0);
                $s.interrupter().interrupt();
                called("interrupt", 0, 0);
                ret(|r| {
                    check($s.n_assigns() as i64 == r, "statistics are passed on");
                    called("assigns", 0, 0);
                    check($s.n_learnts() as i64 == r, "statistics are passed on");
                    called("learnts", 0, 0);
                    check($s.decisions() as i64 == r, "statistics are passed on");
                    called("n decisions", 0, 0);
                    check($s.propagations() as i64 == r, "statistics are passed on");
                    called("n propagations", 0, 0);
                    check($s.conflicts() as i64 == r, "statistics are passed on");
                    called("n conflicts", 0, 0);
                });
                witness(11);
            }
            _ => (),
        }
    };
}
macro_rules! ext_simp {
    ($s:expr, $h:expr, $op:expr) => {
        match $op {
            5 => {
                let v = Var::new(pick($h.n) as u32);
                let known = conc_bool(known_var($h, v));
                let c3 = unsafe { COUNT[3] };
                let f = $s.is_frozen(v).unwrap();
                check(known || !f, "unknown variables are not frozen");
                let r = $s.freeze_var(v);
                if unsafe { COUNT[3] } != c3 {
                    check(r.is_err(), "running out of memory is reported");
                } else {
                    check(r.is_ok(), "variables can be frozen");
                    called("frozen", v.idx32() as i64, 1);
                    check($s.is_frozen(v).unwrap(), "frozen variables are reported");
                    $h.max = $h.max.max(v.idx() as i64);
                    if choice() {
                        check($s.melt_var(v).is_ok(), "variables can be melted");
                        called("frozen", v.idx32() as i64, 0);
                        check(!$s.is_frozen(v).unwrap(), "melted variables are reported");
                    }
                }
                witness(12);
            }
            6 => {
                let v = sym_lit($h.n).var();
                check($s.melt_var(v).is_ok(), "variables can be melted");
                unsafe { LOG.clear() };
            }
            7 => {
                // assumptions over variables that were eliminated
                let e = mag($h.n as u64);
                let hd = $s.n_vars();
                let e = e & ((1 << hd) - 1);
                unsafe { SIMP_HANDLE(e) };
                let asm = sym_clause($h.n, 1 + pick(2));
                let mut bad = false;
                for l in &asm {
                    check($s.var_eliminated(l.var()) == (e >> l.vidx32() & 1 == 1), "eliminated variables are reported");
                    bad |= e >> l.vidx32() & 1 == 1;
                }
                if conc_bool(bad) {
                    check($s.solve_assumps(&asm).is_err(), "assumptions over eliminated variables are refused");
                    witness(13);
                }
                unsafe { SIMP_HANDLE(0) };
                $h.last = Last::Unknown;
            }
            _ => (),
        }
    };
}
static mut HANDLE: H = std::ptr::null_mut();
#[allow(non_snake_case)]
unsafe fn SIMP_HANDLE(e: u64) {
    nat(HANDLE).elim = e;
}
/// further operations of Minisat and Glucose: a[0] % 10 solver
fn ext_minisat(mut a: [u64; 4]) {
    let k = a[0] % 10;
    a[0] /= 10;
    match k {
        0 => drive::<rustsat_minisat::core::Minisat>(a, 5, true, |s, h, op, size| ext_ms!(s, h, op, size, rustsat_minisat)),
        1 => drive::<rustsat_minisat::simp::Minisat>(a, 8, true, |s, h, op, size| {
            // (the handle is the first field of the simulated solver)
            ext_ms!(s, h, op, size, rustsat_minisat);
            ext_simp!(s, h, op);
        }),
        2 => drive::<rustsat_glucose::core::Glucose>(a, 5, true, |s, h, op, size| ext_ms!(s, h, op, size, rustsat_glucose)),
        _ => drive::<rustsat_glucose::simp::Glucose>(a, 8, true, |s, h, op, size| {
            ext_ms!(s, h, op, size, rustsat_glucose);
            ext_simp!(s, h, op);
        }),
    }
}
fn ipx(l: Lit) -> i64 {
    let x = l.vidx32() as i64 + 1;
    ite(l.is_neg(), -x as u64, x as u64) as i64
}
/// further operations of CaDiCaL
fn ext_cadical(a: [u64; 4]) {
    use rustsat_cadical::CaDiCaL;
    drive::<CaDiCaL>(a, 11, true, |s, h, op, size| match op {
        0 => {
            let r = u32_();
            assume(r < 1 << 31);
            let res = s.simplify(r);
            unsafe { LOG.clear() };
            h.answered(res, &[]);
            witness(20);
        }
        1 => {
            let asm = sym_clause(h.n, size());
            let res = s.simplify_assumps(&asm, 1);
            unsafe { LOG.clear() };
            h.answered(res, &asm);
            witness(21);
        }
        2 => {
            let c = sym_clause(h.n, size());
            let c3 = unsafe { COUNT[3] };
            let r = s.add_tmp_clause(&Clause::from(&c[..]));
            check(r.is_err() == (unsafe { COUNT[3] } != c3), "running out of memory is reported");
            h.tmp = M::clause(&c);
            h.cl_slack += 1;
            for l in &c {
                slack(h, l.vidx() as i64);
            }
            h.last = Last::Input;
            check(s.tmp_clause_in_core().is_err(), "there is no core without an unsatisfiable answer");
            witness(22);
        }
        3 => {
            let r = s.tmp_clause_in_core();
            check(r.is_ok() == (h.last == Last::Unsat), "a core is available after an unsatisfiable answer");
            if let (Ok(false), Last::Unsat) = (r, h.last) {
                let core = s.core().unwrap();
                check(h.m.and(M::clause(&core).not()).empty(), "a core without the temporary clause is one of the clauses");
                witness(23);
            }
        }
        4 => {
            if h.tmp != M::all() {
                return;
            }
            prop_op(s, h, size, false);
        }
        5 => {
            let v = sym_lit(h.n).var();
            let c3 = unsafe { COUNT[3] };
            let r = s.reserve(v);
            check(r.is_err() == (unsafe { COUNT[3] } != c3), "running out of memory is reported");
            let v = v.idx() as i64;
            h.max = ite(v > h.max, v as u64, h.max as u64) as i64;
            gone(s, h);
        }
        6 => {
            let l = sym_lit(h.n);
            if h.last != Last::Sat || !conc_bool(known_var(h, l.var())) {
                if h.last == Last::Input || h.last == Last::Unsat {
                    check(s.flip_lit(l).is_err() & s.is_flippable(l).is_err(), "literals are only flipped after a satisfiable answer");
                }
                return;
            }
            // (the stand-in flips with respect to the clauses only)
            if !h.asm.is_empty() || h.used != M::all() {
                return;
            }
            if choice() {
                let r = s.flip_lit(l).unwrap();
                called("flip", ipx(l), r as i64);
            } else {
                let r = s.is_flippable(l).unwrap();
                called("flippable", ipx(l), r as i64);
            }
            witness(24);
        }
        7 => {
            let l = sym_lit(h.n);
            let v = Var::new(u32_() >> 2);
            check(s.phase_lit(l).is_ok(), "phases can be set at any time");
            called("phase", ipx(l), 0);
            check(s.unphase_var(v).is_ok(), "phases can be removed at any time");
            called("unphase", v.idx32() as i64 + 1, 0);
            check(s.freeze_var(v).is_ok(), "variables can be frozen");
            called("freeze", v.idx32() as i64 + 1, 0);
            check(s.melt_var(v).is_ok(), "variables can be melted");
            called("melt", v.idx32() as i64 + 1, 0);
            let f = choice();
            unsafe { RET = f as i64 };
            check(s.is_frozen(v).unwrap() == f, "frozen variables are reported");
            called("frozen", v.idx32() as i64 + 1, 0);
            let x = pick(3) as i64 - 1;
            unsafe { RET = x };
            let val = s.current_lit_val(l);
            check(val == [TernaryVal::False, TernaryVal::DontCare, TernaryVal::True][(x + 1) as usize], "fixed values are passed on");
            called("fixed", ipx(l), 0);
            unsafe { RET = 1 };
            s.interrupter().interrupt();
            called("interrupt", 0, 0);
        }
        8 => {
            ret(|r| {
                check(s.get_active() == r, "statistics are passed on");
                called("active", 0, 0);
                check(s.get_irredundant() == r, "statistics are passed on");
                called("irredundant", 0, 0);
                check(s.get_redundant() == r, "statistics are passed on");
                called("redundant", 0, 0);
                for (i, n) in ["conflicts", "decisions", "propagations"].iter().enumerate() {
                    let v = match i {
                        0 => s.conflicts(),
                        1 => s.decisions(),
                        _ => s.propagations(),
                    };
                    check(v as i64 == r, "statistics are passed on");
                    called("statistic", 0, 0);
                    named(n);
                }
                use rustsat_cadical::Statistic as S;
                for (k, n) in [
                    (S::Conflicts, "conflicts"),
                    (S::Decisions, "decisions"),
                    (S::Ticks, "ticks"),
                    (S::Propagations, "propagations"),
                    (S::Clauses, "clauses"),
                    (S::Redundant, "redundant"),
                    (S::Irredundant, "irredundant"),
                    (S::Fixed, "fixed"),
                    (S::Eliminated, "eliminated"),
                    (S::Substituted, "substituted"),
                ] {
                    check(s.get_statistic(k) as i64 == r, "statistics are passed on");
                    called("statistic", 0, 0);
                    named(n);
                }
            });
        }
        9 => {
            let k = pick(3) as u32;
            let v = if k == 1 { s.declare_one_more_variable() } else if k == 2 { s.declare_more_variables(2) } else { return };
            let v = v.idx() as i64;
            let lo = h.max + k as i64;
            let hi = ite(h.max_slack > h.max, h.max_slack as u64, h.max as u64) as i64 + k as i64;
            check((v >= lo) & (v <= hi), "the highest declared variable is returned");
            h.max = v;
            gone(s, h);
        }
        _ => {
            let x = u32_();
            let some = choice();
            if x >= 1 << 31 && some {
                check(s.limit_conflicts(Some(x)).is_err() & s.limit_decisions(Some(x)).is_err(), "limits beyond the range of the native solver are refused");
                return;
            }
            let want = if some { x as i64 } else { -1 };
            let ok = choice();
            unsafe { RET = ok as i64 };
            check(s.limit_conflicts(some.then_some(x)).is_ok() == ok, "failures to set limits are reported");
            called("limit", want, 0);
            named("conflicts");
            check(s.limit_decisions(some.then_some(x)).is_ok() == ok, "failures to set limits are reported");
            called("limit", want, 0);
            named("decisions");
            unsafe { RET = 1 };
        }
    });
}
/// the answer may or may not be available any longer, but asking for it is fine
fn gone<S: SolveIncremental>(s: &mut S, h: &mut Hist) {
    let _ = s.lit_val(Lit::positive(0));
    let _ = s.core();
    h.last = Last::Unknown;
}
fn named(n: &str) {
    unsafe {
        check(NAMES.len() == 1 && NAMES[0] == n.as_bytes(), "names are passed on");
        NAMES.clear();
    }
}

/// the (non-incremental) Kissat: a[0] operations, a[1] variables, clauses of up to a[2] % 10 literals, a[2] / 10 faults and partial models
fn kissat(a: [u64; 4]) {
    use rustsat_kissat::{Config, Kissat, Limit};
    let n = a[1] as usize;
    setup(a[2] / 10);
    let mut h = Hist::new(n);
    let mut s = Kissat::default();
    check(s.signature() == "any correct solver", "the signature is passed on");
    cleared();
    let mut done = false;
    let mut touched = false;
    let mut first = a[3];
    for _ in 0..a[0] {
        let op = match first % 16 {
            0 => pick(9),
            k => k as usize - 1,
        };
        first /= 16;
        match op {
            0 | 1 | 2 => {
                let c = sym_clause(n, pick(a[2] as usize % 10 + 1));
                let cl = Clause::from(&c[..]);
                if op == 2 {
                    if done {
                        continue;
                    }
                    s.extend(vec![cl]);
                } else {
                    let r = if op == 0 { s.add_clause(cl) } else { s.add_clause_ref(&cl) };
                    check(r.is_ok() != done, "clauses are accepted until the first query");
                    if done {
                        continue;
                    }
                }
                touched = true;
                h.added(&c);
            }
            3 => {
                let before = h.last;
                let r = s.solve();
                if done && before == Last::Input {
                    // (interrupted)
                    check(r.is_err(), "there is only one query");
                } else {
                    h.answered(r, &[]);
                }
                done = true;
                touched = true;
            }
            4 => {
                let v = sym_lit(n).var();
                let r = s.reserve(v);
                if !done {
                    check(r.is_ok(), "variables can be reserved");
                    called("reserve", v.idx32() as i64 + 1, 0);
                }
                unsafe { LOG.clear() };
                touched = true;
            }
            5 => {
                let ok = choice();
                unsafe { RET = ok as i64 };
                let (c, nm) = [(Config::Default, "default"), (Config::Basic, "basic"), (Config::Plain, "plain"), (Config::Sat, "sat"), (Config::Unsat, "unsat")][pick(5)];
                let r = s.set_configuration(c);
                check(r.is_ok() == (ok && !touched), "configurations are only set before anything else");
                if !touched {
                    called("config", 0, 0);
                    named(nm);
                }
                unsafe { RET = 1 };
            }
            6 => {
                let x = u32_() as c_int;
                let ok = choice();
                unsafe { RET = ok as i64 };
                check(s.set_option("quiet", x).is_ok() == ok, "failures to set options are reported");
                called("set", x as i64, 0);
                named("quiet");
                unsafe { RET = x as i64 };
                check(s.get_option("verbose").unwrap() == x, "options are passed on");
                called("get", 0, 0);
                named("verbose");
                check(s.set_option("a\0b", x).is_err() & s.get_option("\0").is_err(), "names with zero bytes are refused");
                unsafe { RET = 1 };
            }
            7 => {
                let x = u32_();
                s.set_limit(Limit::Conflicts(x));
                called("conflicts", x as i64, 0);
                s.set_limit(Limit::Decisions(x));
                called("decisions", x as i64, 0);
                s.interrupter().interrupt();
                called("interrupt", 0, 0);
            }
            _ => (),
        }
        not_called();
        // values
        if h.last == Last::Sat {
            let sol = s.full_solution();
            let mut cube = M::all();
            for v in 0..n as u32 {
                let l = Lit::positive(v);
                let p = s.lit_val(l).unwrap();
                check((s.lit_val(!l).unwrap() == -p) & (s.var_val(l.var()).unwrap() == p), "values agree");
                if v as i64 <= h.max {
                    check(sol.as_ref().unwrap().lit_value(l) == p, "values and solutions agree");
                }
                match p {
                    TernaryVal::True => cube = cube.and(M::lit(l)),
                    TernaryVal::False => cube = cube.and(M::lit(!l)),
                    TernaryVal::DontCare => (),
                }
            }
            check(cube.and(h.m.not()).empty(), "the solution satisfies all clauses");
        } else {
            check(s.lit_val(Lit::positive(0)).is_err(), "there are no values without a satisfiable answer");
        }
        check(s.n_clauses() == h.n_cl, "the clauses are counted");
        check(s.max_var().map_or(-1, |v| v.idx() as i64) == h.max, "the highest variable is reported");
        let c = unsafe { COUNT };
        check((s.n_sat_solves() == c[0]) & (s.n_unsat_solves() == c[1]) & (s.n_terminated() == c[2]), "the calls of the solver are counted");
    }
    drop(s);
    check(unsafe { LIVE } == 0, "the native solver is released");
    witness(9);
}

// ------------------------------------------------------------ callbacks
static mut DROPPED: u64 = 0;
static mut RAN: u64 = 0;
static mut SIGNAL: bool = false;
struct Guard(u32);
impl Drop for Guard {
    fn drop(&mut self) {
        unsafe { DROPPED |= 1 << self.0 }
    }
}
fn term_cb(g: Guard) -> impl FnMut() -> ControlSignal {
    move || {
        let g = &g;
        unsafe {
            RAN |= 1 << g.0;
            check(DROPPED >> g.0 & 1 == 0, "callbacks are not called after they are dropped");
            if SIGNAL {
                ControlSignal::Terminate
            } else {
                ControlSignal::Continue
            }
        }
    }
}
fn learn_cb(g: Guard) -> impl FnMut(Clause) {
    move |c: Clause| {
        let g = &g;
        unsafe {
            RAN |= 1 << g.0;
            check(DROPPED >> g.0 & 1 == 0, "callbacks are not called after they are dropped");
            LEARNED.push(c.iter().copied().collect());
        }
    }
}
static mut INITED: H = std::ptr::null_mut();
fn callback_hist<S: Terminate<'static> + Learn<'static> + Solve + Default>(a: [u64; 4], get: impl Fn(&mut S) -> H) {
    let mut s = S::default();
    s.add_clause(Clause::from(&[Lit::positive(0)][..])).unwrap();
    let h = get(&mut s);
    let mut id = 0u32;
    let mut term: Option<u32> = None;
    let mut learn: Option<(u32, usize)> = None;
    cleared();
    for _ in 0..a[1] {
        match pick(6) {
            0 => {
                s.attach_terminator(term_cb(Guard(id)));
                term = Some(id);
                id += 1;
            }
            1 => {
                s.detach_terminator();
                term = None;
            }
            2 => {
                let max = pick(3);
                s.attach_learner(learn_cb(Guard(id)), max);
                learn = Some((id, max));
                id += 1;
            }
            3 => {
                s.detach_learner();
                learn = None;
            }
            4 => {
                // the native solver asks
                if let Some((p, f)) = nat(h).term {
                    for sig in [false, true] {
                        unsafe {
                            RAN = 0;
                            SIGNAL = sig;
                            let r = f(p);
                            check((r != 0) == sig, "the signal of the terminator is passed on");
                            check(Some(RAN) == term.map(|t| 1 << t), "the attached terminator is called");
                        }
                    }
                } else {
                    check(term.is_none(), "the terminator is attached");
                }
            }
            _ => {
                // the native solver learns
                if let Some((p, m, f)) = nat(h).learn {
                    check(learn.map(|l| l.1) == Some(m as usize), "the maximum length is passed on");
                    let c = sym_clause(3, pick(m as usize + 1));
                    let mut x: Vec<c_int> = c.iter().map(|l| ipx(*l) as c_int).collect();
                    x.push(0);
                    unsafe {
                        RAN = 0;
                        LEARNED.clear();
                        f(p, x.as_mut_ptr());
                        check(Some(RAN) == learn.map(|t| 1 << t.0), "the attached learner is called");
                        check(LEARNED.len() == 1 && LEARNED[0] == c, "the learned clause is passed on");
                    }
                    witness(31);
                } else {
                    check(learn.is_none(), "the learner is attached");
                }
            }
        }
        // exactly the callbacks that are attached are alive
        let mut alive = 0u64;
        if let Some(t) = term {
            alive |= 1 << t;
        }
        if let Some(t) = learn {
            alive |= 1 << t.0;
        }
        unsafe {
            check(DROPPED & alive == 0, "attached callbacks are kept");
            check(nat(h).term.is_some() == term.is_some(), "the native solver has a terminator if one is attached");
            check(nat(h).learn.is_some() == learn.is_some(), "the native solver has a learner if one is attached");
            check(DROPPED | alive == (1 << id) - 1, "detached callbacks are dropped");
        }
    }
    drop(s);
    check(unsafe { LIVE } == 0, "the native solver is released");
    check(unsafe { DROPPED } == (1 << id) - 1, "callbacks are dropped with the solver");
    witness(30);
}
/// a[0] solver, a[1] operations
fn callbacks(a: [u64; 4]) {
    setup(0);
    match a[0] {
        0 => callback_hist::<rustsat_ipasir::IpasirSolver<'static, 'static>>(a, |_| unsafe { INITED }),
        _ => callback_hist::<rustsat_cadical::CaDiCaL<'static, 'static>>(a, |_| unsafe { INITED }),
    }
}
/// termination through callbacks: a[0] solver
fn terminate(a: [u64; 4]) {
    fn run<S: Terminate<'static> + Solve + Default>() {
        let mut s = S::default();
        s.add_clause(Clause::from(&[Lit::positive(0)][..])).unwrap();
        let attach = choice();
        let detach = choice();
        if attach {
            s.attach_terminator(term_cb(Guard(0)));
        }
        if detach {
            s.detach_terminator();
            check(unsafe { DROPPED } == attach as u64, "detached callbacks are dropped");
        }
        unsafe { SIGNAL = choice() };
        let r = s.solve().unwrap();
        let stop = attach && !detach && unsafe { SIGNAL };
        check(unsafe { RAN == (attach && !detach) as u64 }, "the attached terminator is called");
        check(r == if stop { SolverResult::Interrupted } else { SolverResult::Sat }, "the signal of the terminator decides");
        check(s.lit_val(Lit::positive(0)).is_err() == stop, "there are no values without a satisfiable answer");
        drop(s);
        check(unsafe { DROPPED } == attach as u64, "callbacks are dropped with the solver");
        witness(30);
    }
    setup(0);
    match a[0] {
        0 => run::<rustsat_ipasir::IpasirSolver<'static, 'static>>(),
        1 => run::<rustsat_cadical::CaDiCaL<'static, 'static>>(),
        _ => run::<rustsat_kissat::Kissat<'static>>(),
    }
}

// ------------------------------------------------------------ configuration of CaDiCaL
fn config(a: [u64; 4]) {
    use rustsat_cadical::{CaDiCaL, Config, Limit, ProofFormat as P};
    setup(0);
    let mut s = CaDiCaL::default();
    unsafe {
        check(LOG.len() == 1 && NAMES[0] == b"quiet" && LOG[0].1 == 1, "the solver is quiet");
    }
    cleared();
    match a[0] {
        0 => {
            let touched = choice();
            if touched {
                s.add_clause(Clause::from(&[Lit::positive(0)][..])).unwrap();
            }
            let ok = choice();
            unsafe { RET = ok as i64 };
            let (c, n) = [(Config::Default, "default"), (Config::Plain, "plain"), (Config::Sat, "sat"), (Config::Unsat, "unsat")][pick(4)];
            check(s.set_configuration(c).is_ok() == (ok && !touched), "configurations are only set before anything else");
            if !touched {
                called("config", 0, 0);
                named(n);
            }
        }
        1 => {
            let x = u32_() as c_int;
            let ok = choice();
            unsafe { RET = ok as i64 };
            check(s.set_option("arena", x).is_ok() == ok, "failures to set options are reported");
            called("set", x as i64, 0);
            named("arena");
            unsafe { RET = x as i64 };
            check(s.get_option("arena").unwrap() == x, "options are passed on");
            called("get", 0, 0);
            named("arena");
            check(s.set_option("a\0b", x).is_err() & s.get_option("\0").is_err(), "names with zero bytes are refused");
        }
        2 => {
            let x = u32_() as c_int;
            let ok = choice();
            unsafe { RET = ok as i64 };
            let (l, n) = [
                (Limit::Terminate(x), "terminate"),
                (Limit::Conflicts(x), "conflicts"),
                (Limit::Decisions(x), "decisions"),
                (Limit::Preprocessing(x), "preprocessing"),
                (Limit::LocalSearch(x), "localsearch"),
            ][pick(5)];
            check(s.set_limit(l).is_ok() == ok, "failures to set limits are reported");
            called("limit", x as i64, 0);
            named(n);
        }
        _ => {
            let (b, c) = (choice(), choice());
            let (f, opt, val, bin): (P, &str, i64, bool) = match pick(6) {
                0 => (P::Drat { binary: b }, "", 0, b),
                1 => (P::Lrat { binary: b }, "lrat", 1, b),
                2 => (P::Frat { binary: b, drat: c }, "frat", 1 + c as i64, b),
                // (1: with checked deletion, 2: without; 3 and 4: the same without antecedents)
                3 => (P::VeriPB { checked_deletion: b, drat: c }, "veripb", 1 + !b as i64 + 2 * c as i64, false),
                4 => (P::Idrup { binary: b }, "idrup", 1, b),
                _ => (P::Lidrup { binary: b }, "lidrup", 1, b),
            };
            let r = s.trace_proof("a\0b", f);
            check(r.is_err(), "names with zero bytes are refused");
            cleared();
            check(s.trace_proof("proof", f).is_ok(), "proofs can be traced");
            unsafe {
                let k = !opt.is_empty() as usize;
                check(LOG.len() == k + 2 && NAMES.len() == k + 2, "the proof format is passed on");
                if k == 1 {
                    check(LOG[0].0 == "set" && NAMES[0] == opt.as_bytes() && LOG[0].1 == val, "the proof format is passed on");
                }
                check(LOG[k].0 == "set" && NAMES[k] == b"binary" && LOG[k].1 == bin as i64, "the proof format is passed on");
                check(LOG[k + 1].0 == "trace" && NAMES[k + 1] == b"proof", "the path of the proof is passed on");
            }
        }
    }
    witness(9);
}

// ------------------------------------------------------------ undocumented return values
/// what the native solver returns instead of an answer or of a value
static mut ODD: (Option<c_int>, Option<c_int>) = (None, None);
/// a[0] solver, a[1] an odd answer (0) or an odd value (1)
fn invalid(a: [u64; 4]) {
    fn run<S: Solve + SolveStats + Default>(a: [u64; 4], lit: Lit, odd: impl Fn(c_int) -> bool, again: impl Fn(&mut S) -> anyhow::Result<SolverResult>) {
        let mut s = S::default();
        s.add_clause(Clause::from(&[Lit::positive(0)][..])).unwrap();
        let x = u32_() as c_int;
        if a[1] == 0 {
            assume((x != 0) & (x != 10) & (x != 20) & (x != 50));
            unsafe { ODD.0 = Some(x) };
            let r = if choice() { s.solve() } else { again(&mut s) };
            check(r.is_err(), "an odd answer is not taken for an answer");
            check(s.lit_val(lit).is_err(), "there are no values without a satisfiable answer");
            let st = s.stats();
            check(st.n_sat + st.n_unsat + st.n_terminated == 0, "an odd answer is not counted");
        } else {
            check(s.solve().unwrap() == SolverResult::Sat, "satisfiable");
            assume(odd(x));
            unsafe { ODD.1 = Some(x) };
            check(s.lit_val(lit).is_err(), "an odd value is not taken for a value");
        }
        unsafe { ODD = (None, None) };
        witness(9);
    }
    setup(0);
    let l = pick_lit(1);
    // (values of the Minisat family are defined in its header)
    let ms = |x: c_int| (x != 0) & (x != -1) & (x != 1);
    let ip = |x: c_int| (x != 0) & (x != -1) & (x != 1);
    fn inc<S: SolveIncremental>(s: &mut S) -> anyhow::Result<SolverResult> {
        s.solve_assumps(&[Lit::positive(0)])
    }
    match a[0] {
        0 => run::<rustsat_ipasir::IpasirSolver>(a, l, ip, inc),
        1 => run::<rustsat_minisat::core::Minisat>(a, l, ms, inc),
        2 => run::<rustsat_minisat::simp::Minisat>(a, l, ms, inc),
        3 => run::<rustsat_glucose::core::Glucose>(a, l, ms, inc),
        4 => run::<rustsat_glucose::simp::Glucose>(a, l, ms, inc),
        5 => run::<rustsat_cadical::CaDiCaL>(a, l, ip, inc),
        6 => run::<rustsat_cadical::CaDiCaL>(a, l, ip, |s| s.simplify(1)),
        7 => run::<rustsat_cadical::CaDiCaL>(a, l, ip, |s| s.simplify_assumps(&[Lit::positive(0)], 1)),
        _ => run::<rustsat_kissat::Kissat>(a, l, ip, |s| s.solve()),
    }
}

// ------------------------------------------------------------ proof tracers
use rustsat_cadical::{CaDiCaLAssignment, CaDiCaLClause, ClauseId, Conclusion, TraceProof};
#[derive(PartialEq, Debug)]
struct Event(&'static str, i64, u64, Vec<Lit>, Vec<i64>);
static mut EVENTS: Vec<Event> = vec![];
struct Tracer(Guard);
fn ev(n: &'static str, id: i64, flags: u64, lits: Vec<Lit>, ids: &[ClauseId]) {
    unsafe { EVENTS.push(Event(n, id, flags, lits, ids.iter().map(|i| i.0).collect())) }
}
fn cl(c: &CaDiCaLClause) -> Vec<Lit> {
    let v: Vec<Lit> = c.iter().collect();
    check(v.len() == c.len() && c.is_empty() == v.is_empty(), "the length of the clause");
    let o = c.to_owned();
    check(o.iter().copied().collect::<Vec<_>>() == v, "the clause can be copied");
    v
}
fn asn(c: &CaDiCaLAssignment) -> Vec<Lit> {
    let v: Vec<Lit> = c.iter().collect();
    check(v.len() == c.len() && c.is_empty() == v.is_empty(), "the length of the assignment");
    v
}
impl TraceProof for Tracer {
    fn add_original_clause(&mut self, id: ClauseId, redundant: bool, clause: &CaDiCaLClause, restored: bool) {
        ev("original", id.0, redundant as u64 + 2 * restored as u64, cl(clause), &[]);
    }
    fn add_derived_clause(&mut self, id: ClauseId, redundant: bool, clause: &CaDiCaLClause, antecedents: &[ClauseId]) {
        ev("derived", id.0, redundant as u64, cl(clause), antecedents);
    }
    fn delete_clause(&mut self, id: ClauseId, redundant: bool, clause: &CaDiCaLClause) {
        ev("delete", id.0, redundant as u64, cl(clause), &[]);
    }
    fn weaken_minus(&mut self, id: ClauseId, clause: &CaDiCaLClause) {
        ev("weaken", id.0, 0, cl(clause), &[]);
    }
    fn strengthen(&mut self, id: ClauseId) {
        ev("strengthen", id.0, 0, vec![], &[]);
    }
    fn report_status(&mut self, status: SolverResult, id: ClauseId) {
        ev("status", id.0, status as u64, vec![], &[]);
    }
    fn finalize_clause(&mut self, id: ClauseId, clause: &CaDiCaLClause) {
        ev("finalize", id.0, 0, cl(clause), &[]);
    }
    fn begin_proof(&mut self, id: ClauseId) {
        ev("begin", id.0, 0, vec![], &[]);
    }
    fn solve_query(&mut self) {
        ev("query", 0, 0, vec![], &[]);
    }
    fn add_assumption(&mut self, assumption: Lit) {
        ev("assumption", 0, 0, vec![assumption], &[]);
    }
    fn add_constraint(&mut self, constraint: &CaDiCaLClause) {
        ev("constraint", 0, 0, cl(constraint), &[]);
    }
    fn reset_assumptions(&mut self) {
        ev("reset", 0, 0, vec![], &[]);
    }
    fn add_assumption_clause(&mut self, id: ClauseId, clause: &CaDiCaLClause, antecedents: &[ClauseId]) {
        ev("assumption clause", id.0, 0, cl(clause), antecedents);
    }
    fn conclude_unsat(&mut self, conclusion: Conclusion, failing: &[ClauseId]) {
        ev("unsat", 0, conclusion as u64, vec![], failing);
    }
    fn conclude_sat(&mut self, solution: &CaDiCaLAssignment) {
        ev("sat", 0, 0, asn(solution), &[]);
    }
    fn conclude_unknown(&mut self, solution: &CaDiCaLAssignment) {
        ev("unknown", 0, 0, asn(solution), &[]);
    }
    fn notify_equivalence(&mut self, first: Lit, second: Lit) {
        ev("equivalence", 0, 0, vec![first, second], &[]);
    }
}
/// a[0] event, clauses of up to a[1] literals, up to a[2] antecedents
fn tracer(a: [u64; 4]) {
    setup(0);
    let mut s = rustsat_cadical::CaDiCaL::default();
    let ant = choice();
    let handle = s.connect_proof_tracer(Tracer(Guard(0)), ant);
    let (_, d, c, an) = unsafe { TRACERS[0] };
    check(an == ant, "the wish for antecedents is passed on");
    let id = u64_() as i64;
    let (r, q) = (choice(), choice());
    let lits = sym_clause(4, pick(a[1] as usize + 1));
    let x: Vec<c_int> = lits.iter().map(|l| ipx(*l) as c_int).collect();
    let ids: Vec<i64> = (0..pick(a[2] as usize + 1)).map(|_| u64_() as i64).collect();
    let (xp, xn) = if x.is_empty() { (std::ptr::null(), 0) } else { (x.as_ptr(), x.len()) };
    let (ip, inn) = if ids.is_empty() { (std::ptr::null(), 0) } else { (ids.as_ptr(), ids.len()) };
    let no = || vec![];
    let one = pick_lit(4);
    let want = unsafe {
        match a[0] {
            0 => {
                (c.add_original_clause)(d, id, r, xn, xp, q);
                Event("original", id, r as u64 + 2 * q as u64, lits, no())
            }
            1 => {
                (c.add_derived_clause)(d, id, r, xn, xp, inn, ip);
                Event("derived", id, r as u64, lits, ids)
            }
            2 => {
                (c.delete_clause)(d, id, r, xn, xp);
                Event("delete", id, r as u64, lits, no())
            }
            3 => {
                (c.weaken_minus)(d, id, xn, xp);
                Event("weaken", id, 0, lits, no())
            }
            4 => {
                (c.strengthen)(d, id);
                Event("strengthen", id, 0, vec![], no())
            }
            5 => {
                let k = pick(3);
                (c.report_status)(d, [0, 10, 20][k], id);
                Event("status", id, [SolverResult::Interrupted, SolverResult::Sat, SolverResult::Unsat][k] as u64, vec![], no())
            }
            6 => {
                (c.finalize_clause)(d, id, xn, xp);
                Event("finalize", id, 0, lits, no())
            }
            7 => {
                (c.begin_proof)(d, id);
                Event("begin", id, 0, vec![], no())
            }
            8 => {
                (c.solve_query)(d);
                Event("query", 0, 0, vec![], no())
            }
            9 => {
                (c.add_assumption)(d, ipx(one) as c_int);
                Event("assumption", 0, 0, vec![one], no())
            }
            10 => {
                (c.add_constraint)(d, xn, xp);
                Event("constraint", 0, 0, lits, no())
            }
            11 => {
                (c.reset_assumptions)(d);
                Event("reset", 0, 0, vec![], no())
            }
            12 => {
                (c.add_assumption_clause)(d, id, xn, xp, inn, ip);
                Event("assumption clause", id, 0, lits, ids)
            }
            13 => {
                let k = pick(3);
                (c.conclude_unsat)(d, [1, 2, 4][k], inn, ip);
                Event("unsat", 0, [Conclusion::Conflict, Conclusion::Assumptions, Conclusion::Constraint][k] as u64, vec![], ids)
            }
            14 => {
                (c.conclude_sat)(d, xn, xp);
                Event("sat", 0, 0, lits, no())
            }
            15 => {
                (c.conclude_unknown)(d, xn, xp);
                Event("unknown", 0, 0, lits, no())
            }
            _ => {
                let l = sym_lit(4);
                (c.notify_equivalence)(d, ipx(l) as c_int, ipx(one) as c_int);
                Event("equivalence", 0, 0, vec![l, one], no())
            }
        }
    };
    unsafe {
        check(EVENTS.len() == 1 && EVENTS[0] == want, "the event is passed on to the tracer");
        check(DROPPED == 0, "the tracer is kept");
    }
    let t: &mut Tracer = s.proof_tracer_mut(&handle);
    check(t.0 .0 == 0, "the tracer is accessible");
    let other = choice();
    if other {
        let mut o = rustsat_cadical::CaDiCaL::default();
        check(o.disconnect_proof_tracer(handle).is_err(), "the tracer is only disconnected from its solver");
        drop(o);
    } else {
        let t = s.disconnect_proof_tracer(handle);
        check(t.is_ok() && unsafe { DROPPED } == 0, "the disconnected tracer is returned");
        drop(t);
        check(unsafe { DROPPED } == 1, "the tracer is dropped once");
    }
    drop(s);
    check(unsafe { LIVE } == 0, "the native solver is released");
    witness(9);
}

// ------------------------------------------------------------ interrupters
/// an interrupter after its solver is gone: a[0] solver
fn interrupter(a: [u64; 4]) {
    fn run<S: Interrupt + Default>() {
        let mut s = S::default();
        let i = s.interrupter();
        unsafe { LOG.clear() };
        if choice() {
            i.interrupt();
            called("interrupt", 0, 0);
            drop(s);
        } else {
            drop(s);
            known("interrupter-dangling", true);
            i.interrupt();
        }
        witness(9);
    }
    setup(0);
    match a[0] {
        0 => run::<rustsat_minisat::core::Minisat>(),
        1 => run::<rustsat_minisat::simp::Minisat>(),
        2 => run::<rustsat_glucose::core::Glucose>(),
        3 => run::<rustsat_glucose::simp::Glucose>(),
        4 => run::<rustsat_kissat::Kissat>(),
        _ => run::<rustsat_cadical::CaDiCaL>(),
    }
}
