//! Interface between the harnesses and the symbolic executor.
//! With feature `native` the same functions read a counterexample from a file,
//! so that every counterexample is replayed against the compiled code.
#![allow(dead_code)]

#[cfg(feature = "native")]
mod native;

mod raw {
    extern "C" {
        pub fn __sym_u8() -> u8;
        pub fn __sym_u16() -> u16;
        pub fn __sym_u32() -> u32;
        pub fn __sym_u64() -> u64;
        pub fn __sym_bool() -> u8;
        pub fn __sym_assume(c: u8);
        pub fn __sym_assert(c: u8, m: *const u8, n: usize);
        pub fn __sym_concretize(v: u64) -> u64;
        pub fn __sym_decide(c: u8) -> u8;
        pub fn __sym_ite(c: u8, a: u64, b: u64) -> u64;
        pub fn __sym_cnf_implies(l: *const u32, n: usize, i: *const u8, ni: usize, c: u8, m: *const u8, mn: usize);
        pub fn __sym_cnf_exists(l: *const u32, n: usize, i: *const u8, ni: usize, c: u8, m: *const u8, mn: usize);
        pub fn __sym_allow_panic(c: u8);
        pub fn __sym_known(p: *const u8, n: usize, c: u8);
        pub fn __sym_witness(id: u64);
        pub fn __sym_trace(v: u64);
    }
}

pub fn u8_() -> u8 {
    unsafe { raw::__sym_u8() }
}
pub fn u16_() -> u16 {
    unsafe { raw::__sym_u16() }
}
pub fn u32_() -> u32 {
    unsafe { raw::__sym_u32() }
}
pub fn u64_() -> u64 {
    unsafe { raw::__sym_u64() }
}
pub fn usize_() -> usize {
    unsafe { raw::__sym_u64() as usize }
}
/// a symbolic truth value as 0/1, without branching
pub fn bit() -> u8 {
    unsafe { raw::__sym_bool() }
}
pub fn bool_() -> bool {
    unsafe { raw::__sym_bool() != 0 }
}
/// a choice the execution forks on
pub fn choice() -> bool {
    unsafe { raw::__sym_decide(raw::__sym_bool()) != 0 }
}
/// forks over all values 0..n
pub fn pick(n: usize) -> usize {
    let v = u8_();
    assume((v as usize) < n);
    concretize(v as u64) as usize
}
/// a symbolic value in lo..=hi
pub fn range(lo: u64, hi: u64) -> u64 {
    if hi < 256 {
        let v = u8_() as u64;
        assume((v >= lo) & (v <= hi));
        return v;
    }
    let v = u64_();
    assume((v >= lo) & (v <= hi));
    v
}
/// a symbolic value of `w` bits
pub fn mag(w: u64) -> u64 {
    match w {
        0 => 0,
        1..=8 => (u8_() & ((1u16 << w) - 1) as u8) as u64,
        9..=16 => (u16_() & ((1u32 << w) - 1) as u16) as u64,
        17..=32 => (u32_() & ((1u64 << w) - 1) as u32) as u64,
        _ => u64_() & (u64::MAX >> (64 - w)),
    }
}
/// a symbolic byte out of `alpha`
pub fn byte_in(alpha: &[u8]) -> u8 {
    let v = u8_();
    let mut ok = 0u8;
    for &a in alpha {
        ok |= (v == a) as u8;
    }
    assume(ok != 0);
    v
}
pub fn assume(c: bool) {
    unsafe { raw::__sym_assume(c as u8) }
}
pub fn check(c: bool, m: &'static str) {
    unsafe { raw::__sym_assert(c as u8, m.as_ptr(), m.len()) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { raw::__sym_concretize(v) }
}
pub fn conc_bool(v: bool) -> bool {
    unsafe { raw::__sym_decide(v as u8) != 0 }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { raw::__sym_ite(c as u8, a, b) }
}
pub fn allow_panic(c: bool) {
    unsafe { raw::__sym_allow_panic(c as u8) }
}
/// From here on, a violation on paths where `c` holds is the known finding `id`
pub fn known(id: &'static str, c: bool) {
    unsafe { raw::__sym_known(id.as_ptr(), id.len(), c as u8) }
}
pub fn witness(id: u64) {
    unsafe { raw::__sym_witness(id) }
}
pub fn trace(v: u64) {
    unsafe { raw::__sym_trace(v) }
}

/// A flattened CNF: literals as 2*var+sign, clauses closed by 0xffffffff
#[derive(Default, Clone)]
pub struct Flat(pub Vec<u32>);
pub const END: u32 = 0xffff_ffff;
impl Flat {
    pub fn new() -> Self {
        Flat(Vec::with_capacity(256))
    }
    pub fn clause(&mut self, c: &rustsat::types::Clause) {
        for l in c.iter() {
            self.0.push(lraw(*l));
        }
        self.0.push(END);
    }
    pub fn cnf(&mut self, c: &rustsat::instances::Cnf) {
        for cl in c.iter() {
            self.clause(cl);
        }
    }
    pub fn unit(&mut self, l: rustsat::types::Lit) {
        self.0.push(lraw(l));
        self.0.push(END);
    }
    pub fn raw_clause(&mut self, ls: &[u32]) {
        self.0.extend_from_slice(ls);
        self.0.push(END);
    }
    /// every assignment that satisfies the CNF (inputs fixed to `inp`) makes `cond` true
    pub fn implies(&self, inp: &[u8], cond: bool, m: &'static str) {
        unsafe { raw::__sym_cnf_implies(self.0.as_ptr(), self.0.len(), inp.as_ptr(), inp.len(), cond as u8, m.as_ptr(), m.len()) }
    }
    /// whenever `cond` holds, the inputs `inp` extend to an assignment satisfying the CNF
    pub fn exists(&self, inp: &[u8], cond: bool, m: &'static str) {
        unsafe { raw::__sym_cnf_exists(self.0.as_ptr(), self.0.len(), inp.as_ptr(), inp.len(), cond as u8, m.as_ptr(), m.len()) }
    }
    pub fn iff(&self, inp: &[u8], cond: bool, ms: &'static str, mc: &'static str) {
        self.implies(inp, cond, ms);
        self.exists(inp, cond, mc);
    }
    /// truth value of the CNF when every variable is below inp.len()
    pub fn eval(&self, inp: &[u8]) -> bool {
        let mut all = 1u8;
        let mut cl = 0u8;
        for &l in &self.0 {
            if l == END {
                all &= cl;
                cl = 0;
            } else {
                cl |= inp[(l >> 1) as usize] ^ (l & 1) as u8;
            }
        }
        all != 0
    }
    pub fn max_var(&self) -> Option<u32> {
        self.0.iter().filter(|l| **l != END).map(|l| l >> 1).max()
    }
}
/// 2*var + sign through the public interface, without branching
pub fn lraw(l: rustsat::types::Lit) -> u32 {
    (l.vidx32() << 1) | l.is_neg() as u32
}
pub fn lit_val(l: rustsat::types::Lit, inp: &[u8]) -> u8 {
    inp[l.vidx()] ^ l.is_neg() as u8
}
pub fn bits(n: usize) -> Vec<u8> {
    (0..n).map(|_| bit()).collect()
}
pub fn sum(bs: &[u8]) -> u64 {
    let mut s = 0u64;
    for &b in bs {
        s += b as u64;
    }
    s
}

pub type Entry = (&'static str, extern "C" fn(u64, u64, u64, u64));

#[macro_export]
macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        mod sym_entries {
            $(
                #[export_name = concat!("h_", stringify!($n))]
                pub extern "C" fn $n(a: u64, b: u64, c: u64, d: u64) { super::$n([a, b, c, d]) }
            )*
        }
        #[used]
        static REG: &[symlib::Entry] = &[$((stringify!($n), sym_entries::$n)),*];
        fn main() { symlib::run(REG) }
    };
}

#[inline(never)]
pub fn run(reg: &'static [Entry]) {
    let a: Vec<String> = std::env::args().collect();
    let g = |i: usize| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(0u64);
    for (n, f) in reg {
        if a.len() > 1 && a[1] == *n {
            f(g(2), g(3), g(4), g(5));
            println!("REPLAY-OK");
            return;
        }
    }
    println!("unknown entry");
    std::process::exit(2);
}

// ------------------------------------------------------------ symbolic rustsat values
use rustsat::types::{Assignment, Lit, TernaryVal, Var};

/// a literal with symbolic variable < n and symbolic polarity
pub fn sym_lit(n: usize) -> Lit {
    let v = if n <= 1 { 0 } else { range(0, n as u64 - 1) as u32 };
    Lit::new(v, bool_())
}
/// a literal over a fixed variable with symbolic polarity
pub fn pol_lit(v: usize) -> Lit {
    Lit::new(v as u32, bool_())
}
/// forks over all literals on variables < n
pub fn pick_lit(n: usize) -> Lit {
    Lit::new(pick(n) as u32, choice())
}
pub fn pos(v: usize) -> Lit {
    Lit::new(v as u32, false)
}
pub fn neg(v: usize) -> Lit {
    Lit::new(v as u32, true)
}
pub fn lit(v: usize, n: bool) -> Lit {
    Lit::new(v as u32, n)
}
pub fn var(v: usize) -> Var {
    Var::new(v as u32)
}
/// a symbolic ternary value
pub fn tern() -> TernaryVal {
    let v = u8_();
    assume(v < 3);
    // `TernaryVal` is `repr(u8)` with three variants
    unsafe { std::mem::transmute::<u8, TernaryVal>(v) }
}
/// 0/1/2 for true/false/don't care without branching
pub fn tv(t: TernaryVal) -> u8 {
    t as u8
}
pub fn asg(ts: &[TernaryVal]) -> Assignment {
    Assignment::from(ts.to_vec())
}
/// whether the literal is true / false under the ternary values
pub fn is_t(l: Lit, ts: &[TernaryVal]) -> u8 {
    let t = tv(ts[l.vidx()]);
    let n = l.is_neg() as u8;
    ((t == 0) as u8 & (n ^ 1)) | ((t == 1) as u8 & n)
}
pub fn is_f(l: Lit, ts: &[TernaryVal]) -> u8 {
    let t = tv(ts[l.vidx()]);
    let n = l.is_neg() as u8;
    ((t == 1) as u8 & (n ^ 1)) | ((t == 0) as u8 & n)
}
pub fn total(bs: &[u8]) -> Assignment {
    Assignment::from(bs.iter().map(|b| unsafe { std::mem::transmute::<u8, TernaryVal>((*b & 1) ^ 1) }).collect::<Vec<_>>())
}
/// `ext` assigns variables from `inp` on: a value for each of `used` ones and whether there is one
pub fn extended(inp: &[u8], used: usize, ext: impl Iterator<Item = Lit>) -> (Vec<u8>, Vec<bool>) {
    let first = inp.len();
    let mut val = inp.to_vec();
    val.resize(first + used, 0);
    let mut set = vec![true; first];
    set.resize(first + used, false);
    for l in ext {
        let v = concretize(l.vidx() as u64) as usize;
        check(v >= first && v < first + used, "only variables of the encoding are assigned");
        check(!set[v], "no variable is assigned twice");
        set[v] = true;
        val[v] = l.is_pos() as u8;
    }
    (val, set)
}
pub fn clause_val(c: &[Lit], inp: &[u8]) -> u8 {
    let mut r = 0;
    for l in c {
        r |= lit_val(*l, inp);
    }
    r
}

/// a ternary value the execution forks on
pub fn ctern() -> TernaryVal {
    match pick(3) {
        0 => TernaryVal::True,
        1 => TernaryVal::False,
        _ => TernaryVal::DontCare,
    }
}
/// truth values the execution forks on
pub fn cbits(n: usize) -> Vec<u8> {
    (0..n).map(|_| choice() as u8).collect()
}
