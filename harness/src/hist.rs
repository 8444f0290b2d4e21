//! Histories of incremental solving against sets of assignments
#![allow(dead_code)]
use rustsat::solvers::{Solve, SolveIncremental, SolveStats, SolverResult, SolverStats, StateError};
use rustsat::types::{Cl, Clause, Lit, TernaryVal, Var};
use symlib::*;

// ------------------------------------------------------------ sets of assignments
/// the set of assignments to NV variables (all of them symbolic bit vectors)
use super::{NV, W};
#[derive(Clone, Copy, PartialEq)]
pub struct M(pub [u64; W]);
pub const TAB: [u64; 6] = [
    0xaaaa_aaaa_aaaa_aaaa,
    0xcccc_cccc_cccc_cccc,
    0xf0f0_f0f0_f0f0_f0f0,
    0xff00_ff00_ff00_ff00,
    0xffff_0000_ffff_0000,
    0xffff_ffff_0000_0000,
];
/// the bits that are used
const ALL: u64 = if NV < 6 { (1 << (1 << NV)) - 1 } else { !0 };
impl M {
    pub fn all() -> M {
        M([ALL; W])
    }
    pub fn none() -> M {
        M([0; W])
    }
    pub fn or(mut self, o: M) -> M {
        for i in 0..W {
            self.0[i] |= o.0[i];
        }
        self
    }
    pub fn and(mut self, o: M) -> M {
        for i in 0..W {
            self.0[i] &= o.0[i];
        }
        self
    }
    pub fn not(mut self) -> M {
        for i in 0..W {
            self.0[i] = !self.0[i] & ALL;
        }
        self
    }
    pub fn empty(self) -> bool {
        let mut x = 0;
        for i in 0..W {
            x |= self.0[i];
        }
        x == 0
    }
    pub fn var(i: usize) -> M {
        let mut m = [0; W];
        for (w, m) in m.iter_mut().enumerate() {
            *m = if i < 6 {
                TAB[i] & ALL
            } else if w >> (i - 6) & 1 == 1 {
                !0
            } else {
                0
            };
        }
        M(m)
    }
    pub fn lit(l: Lit) -> M {
        let v = l.vidx32();
        check(v < NV as u32, "(bound of the harness) the variables fit the sets of assignments");
        let mut m = [0; W];
        for i in 0..NV {
            let t = M::var(i);
            let sel = 0u64.wrapping_sub((v == i as u32) as u64);
            for w in 0..W {
                m[w] |= t.0[w] & sel;
            }
        }
        let n = 0u64.wrapping_sub(l.is_neg() as u64) & ALL;
        for w in &mut m {
            *w ^= n;
        }
        M(m)
    }
    pub fn clause(c: &[Lit]) -> M {
        c.iter().fold(M::none(), |m, l| m.or(M::lit(*l)))
    }
    pub fn cube(c: &[Lit]) -> M {
        c.iter().fold(M::all(), |m, l| m.and(M::lit(*l)))
    }
    pub fn has(self, k: u64) -> bool {
        let mut r = 0;
        for w in 0..W {
            r |= self.0[w] >> (k & 63) & (k >> 6 == w as u64) as u64;
        }
        r & 1 == 1
    }
}

// ------------------------------------------------------------ an arbitrary correct solver
/// what the solvers were asked
pub static mut COUNT: [usize; 4] = [0; 4];
/// whether solvers may be interrupted or fail
pub static mut FAULTS: bool = false;
/// whether the state after a failure is left open
pub static mut ERR_UNKNOWN: bool = false;
/// A strict non-incremental solver that gives any correct answer
#[derive(PartialEq, Debug)]
pub enum St {
    Init,
    Sat(u64),
    Unsat,
    Done,
}
/// (incremental if the parameter is set)
pub struct Spy<const INC: bool> {
    pub m: M,
    pub st: St,
    pub n: usize,
    pub max: Option<Var>,
}
impl<const INC: bool> Default for Spy<INC> {
    fn default() -> Self {
        Spy { m: M::all(), st: St::Init, n: 0, max: None }
    }
}
impl<const INC: bool> Extend<Clause> for Spy<INC> {
    fn extend<T: IntoIterator<Item = Clause>>(&mut self, iter: T) {
        iter.into_iter().for_each(|c| self.add_clause(c).unwrap());
    }
}
impl<'a, const INC: bool> Extend<&'a Clause> for Spy<INC> {
    fn extend<T: IntoIterator<Item = &'a Clause>>(&mut self, iter: T) {
        iter.into_iter().for_each(|c| self.add_clause_ref(c).unwrap());
    }
}
pub fn bad_state() -> anyhow::Error {
    StateError { required_state: rustsat::solvers::SolverState::Sat, actual_state: rustsat::solvers::SolverState::Input }.into()
}
impl<const INC: bool> Solve for Spy<INC> {
    fn signature(&self) -> &'static str {
        "any correct solver"
    }
    fn solve(&mut self) -> anyhow::Result<SolverResult> {
        if !INC && self.st != St::Init {
            return Err(bad_state());
        }
        if unsafe { FAULTS } {
            match pick(3) {
                0 => (),
                1 => {
                    self.st = St::Done;
                    unsafe { COUNT[2] += 1 };
                    return Ok(SolverResult::Interrupted);
                }
                _ => {
                    self.st = St::Done;
                    unsafe { COUNT[3] += 1 };
                    return Err(bad_state());
                }
            }
        }
        if conc_bool(self.m.empty()) {
            self.st = St::Unsat;
            unsafe { COUNT[1] += 1 };
            return Ok(SolverResult::Unsat);
        }
        let k = mag(NV as u64);
        assume(self.m.has(k));
        self.st = St::Sat(k);
        unsafe { COUNT[0] += 1 };
        Ok(SolverResult::Sat)
    }
    fn lit_val(&self, lit: Lit) -> anyhow::Result<TernaryVal> {
        match self.st {
            St::Sat(k) => {
                // (the solver knows nothing about variables beyond its clauses)
                if self.max.map_or(true, |m| m < lit.var()) {
                    return Ok(TernaryVal::DontCare);
                }
                Ok(if (k >> lit.vidx32()) & 1 == lit.is_pos() as u64 { TernaryVal::True } else { TernaryVal::False })
            }
            _ => Err(bad_state()),
        }
    }
    fn add_clause_ref<C>(&mut self, clause: &C) -> anyhow::Result<()>
    where
        C: AsRef<Cl> + ?Sized,
    {
        if !INC && self.st != St::Init {
            return Err(bad_state());
        }
        self.st = St::Init;
        let c: Vec<Lit> = clause.as_ref().iter().copied().collect();
        for l in &c {
            // (managers of variables branch on this one)
            let v = Var::new(concretize(l.vidx() as u64) as u32);
            self.max = self.max.max(Some(v));
        }
        self.m = self.m.and(M::clause(&c));
        self.n += 1;
        Ok(())
    }
}
impl SolveIncremental for Spy<true> {
    fn solve_assumps(&mut self, _: &[Lit]) -> anyhow::Result<SolverResult> {
        unreachable!()
    }
    fn core(&mut self) -> anyhow::Result<Vec<Lit>> {
        unreachable!()
    }
}
impl<const INC: bool> SolveStats for Spy<INC> {
    fn stats(&self) -> SolverStats {
        SolverStats { n_clauses: self.n, max_var: self.max, ..SolverStats::default() }
    }
}

// ------------------------------------------------------------ histories of incremental solving
#[derive(PartialEq, Clone, Copy)]
pub enum Last {
    Input,
    Sat,
    Unsat,
    /// (after a failure)
    Unknown,
}
pub struct Hist {
    pub n: usize,
    pub m: M,
    pub asm: Vec<Lit>,
    pub last: Last,
    pub n_cl: usize,
    pub len: usize,
    pub max: i64,
    /// a constraint for the next answer only
    pub tmp: M,
    /// the one of the last answer
    pub used: M,
    /// variables that may or may not be known to the solver, clauses that may or may not count
    pub max_slack: i64,
    pub cl_slack: usize,
}
pub fn sym_clause(n: usize, len: usize) -> Vec<Lit> {
    (0..len).map(|_| sym_lit(n)).collect()
}
impl Hist {
    pub fn new(n: usize) -> Self {
        Hist { n, m: M::all(), asm: vec![], last: Last::Input, n_cl: 0, len: 0, max: -1, tmp: M::all(), used: M::all(), max_slack: -1, cl_slack: 0 }
    }
    pub fn added(&mut self, c: &[Lit]) {
        self.m = self.m.and(M::clause(c));
        self.last = Last::Input;
        self.n_cl += 1;
        self.len += c.len();
        for l in c {
            let v = l.vidx() as i64;
            self.max = ite(v > self.max, v as u64, self.max as u64) as i64;
        }
    }
    pub fn answered(&mut self, r: anyhow::Result<SolverResult>, asm: &[Lit]) {
        self.asm = asm.to_vec();
        let set = self.m.and(M::cube(asm)).and(self.tmp);
        self.used = self.tmp;
        self.tmp = M::all();
        match r {
            Ok(SolverResult::Sat) => {
                check(!set.empty(), "satisfiable only if there is a solution");
                self.last = Last::Sat;
                witness(1);
            }
            Ok(SolverResult::Unsat) => {
                check(set.empty(), "unsatisfiable only if there is no solution");
                self.last = Last::Unsat;
                witness(if asm.is_empty() { 2 } else { 3 });
            }
            r => {
                check(unsafe { FAULTS }, "no failure without one of the solver");
                self.last = if unsafe { ERR_UNKNOWN } && r.is_err() { Last::Unknown } else { Last::Input };
                witness(4);
            }
        }
    }
    pub fn look<S: SolveIncremental + SolveStats>(&self, s: &mut S, exact: bool) {
        if self.last == Last::Unknown {
            return;
        }
        // values
        if self.last == Last::Sat {
            let mut cube = M::all();
            let sol = s.solution(Var::new(self.n as u32 - 1));
            check(sol.is_ok(), "a solution is available after a satisfiable answer");
            let sol = sol.unwrap();
            for v in 0..self.n as u32 {
                let l = Lit::positive(v);
                let p = s.lit_val(l).unwrap_or(TernaryVal::DontCare);
                let q = s.lit_val(!l).unwrap_or(TernaryVal::DontCare);
                let r = s.var_val(l.var()).unwrap_or(TernaryVal::DontCare);
                check((sol.lit_value(l) == p) & (p == r) & (p == -q), "values and solutions agree");
                match p {
                    TernaryVal::True => cube = cube.and(M::lit(l)),
                    TernaryVal::False => cube = cube.and(M::lit(!l)),
                    TernaryVal::DontCare => (),
                }
            }
            check(cube.and(self.m.and(self.used).and(M::cube(&self.asm)).not()).empty(), "the solution satisfies all clauses and assumptions");
        } else {
            check(s.lit_val(Lit::positive(0)).is_err(), "there are no values without a satisfiable answer");
            check(s.solution(Var::new(0)).is_err(), "there is no solution without a satisfiable answer");
        }
        // core
        match s.core() {
            Ok(core) => {
                check(self.last == Last::Unsat, "a core is only available after an unsatisfiable answer");
                for l in &core {
                    let mut has = false;
                    for a in &self.asm {
                        has |= *a == !*l;
                    }
                    check(has, "the core only contains negated assumptions");
                }
                check(self.m.and(self.used).and(M::clause(&core).not()).empty(), "the core is implied by the clauses");
            }
            Err(_) => check(self.last != Last::Unsat, "a core is available after an unsatisfiable answer"),
        }
        if !exact {
            return;
        }
        // statistics
        let nc = s.n_clauses();
        check((nc >= self.n_cl) & (nc <= self.n_cl + self.cl_slack), "the clauses are counted");
        let m = s.max_var().map_or(-1, |v| v.idx() as i64);
        check((m >= self.max) & ((m == self.max) | (m <= self.max_slack)), "the highest variable is reported");
        check(s.n_vars() as i64 == m + 1, "the number of variables is reported");
        let c = unsafe { COUNT };
        check((s.n_sat_solves() == c[0]) & (s.n_unsat_solves() == c[1]) & (s.n_terminated() == c[2]), "the calls of the solver are counted");
        check(s.n_solves() == c[0] + c[1] + c[2], "the calls of the solver add up");
    }
}
/// a[0] operations (a[3] fixes the first ones in base 8), a[1] variables, clauses and assumptions of up to a[2] % 10 literals (exactly for a[2] >= 100), a[2] / 10 odd: faults
pub fn hist<S: SolveIncremental + SolveStats + Default + Extend<Clause>>(a: [u64; 4], exact: bool) {
    let n = a[1] as usize;
    let max = a[2] as usize % 10;
    unsafe { FAULTS = a[2] / 10 % 10 == 1 };
    let min = if a[2] >= 100 { max } else { 0 };
    let size = || min + pick(max + 1 - min);
    let mut h = Hist::new(n);
    let mut s = S::default();
    let mut first = a[3];
    for _ in 0..a[0] {
        let op = match first % 8 {
            0 => pick(6),
            k => k as usize - 1,
        };
        first /= 8;
        step(&mut s, &mut h, op, exact, &size);
        h.look(&mut s, exact);
    }
    witness(9);
}
pub fn step<S: SolveIncremental + SolveStats + Extend<Clause>>(s: &mut S, h: &mut Hist, op: usize, exact: bool, size: &dyn Fn() -> usize) {
    match op {
        0 => {
            let c = sym_clause(h.n, size());
            check(s.add_clause(Clause::from(&c[..])).is_ok(), "clauses can be added at any time");
            h.added(&c);
        }
        1 => {
            let c = sym_clause(h.n, size());
            check(s.add_clause_ref(&Clause::from(&c[..])).is_ok(), "clauses can be added at any time");
            h.added(&c);
        }
        2 => {
            let r = s.solve();
            h.answered(r, &[]);
        }
        3 => {
            let asm = sym_clause(h.n, size());
            let r = s.solve_assumps(&asm);
            h.answered(r, &asm);
        }
        4 => {
            let c = sym_clause(h.n, size());
            s.extend(vec![Clause::from(&c[..])]);
            h.added(&c);
        }
        _ => {
            // (answers can be looked at repeatedly)
            h.look(s, exact);
        }
    }
}
/// a[0] additions in one of the ways to add clauses (base 8, 0: any), one solve with a[2] assumptions, over a[1] variables
pub fn ways<S: SolveIncremental + SolveStats + Default + Extend<Clause> + for<'a> Extend<&'a Clause>>(a: [u64; 4], exact: bool) {
    use rustsat::instances::Cnf;
    let n = a[1] as usize;
    unsafe { FAULTS = false };
    let mut h = Hist::new(n);
    let mut s = S::default();
    let mut first = a[3];
    for _ in 0..a[0] {
        let way = match first % 8 {
            0 => pick(7),
            k => k as usize - 1,
        };
        first /= 8;
        let lens: &[usize] = [&[1][..], &[2], &[3], &[1, 2], &[2, 1], &[1, 0], &[2, 1]][way];
        let cls: Vec<Vec<Lit>> = lens.iter().map(|k| sym_clause(n, *k)).collect();
        let cnf: Cnf = cls.iter().map(|c| Clause::from(&c[..])).collect();
        let c = &cls[0];
        let ok = match way {
            0 => s.add_unit(c[0]).is_ok(),
            1 => s.add_binary(c[0], c[1]).is_ok(),
            2 => s.add_ternary(c[0], c[1], c[2]).is_ok(),
            3 => s.add_cnf(cnf).is_ok(),
            4 => s.add_cnf_ref(&cnf).is_ok(),
            5 => {
                s.extend(cnf);
                true
            }
            _ => {
                s.extend(&cnf);
                true
            }
        };
        check(ok, "clauses can be added in every way");
        for c in &cls {
            h.added(c);
        }
    }
    let asm = sym_clause(n, a[2] as usize);
    let r = s.solve_assumps(&asm);
    h.answered(r, &asm);
    h.look(&mut s, exact);
    let full = s.full_solution();
    check(full.is_ok() == (h.last == Last::Sat), "there is a full solution after a satisfiable answer only");
    if let Ok(full) = full {
        for v in 0..n as u32 {
            let l = Lit::positive(v);
            if v as i64 <= h.max {
                check(full.lit_value(l) == s.lit_val(l).unwrap(), "the full solution covers all variables");
            }
        }
    }
    witness(9);
}
